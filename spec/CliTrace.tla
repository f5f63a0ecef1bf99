------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded command lines: the directory before and after, byte by byte, *)
(* against the effect the specification gives the command.                      *)
EXTENDS LevelFile, TLC, Json, IOUtils
INSTANCE JsonDoc
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

Headers == { << 68, 70, 95, 83, 84, 65 >>, << 68, 70, 95, 67, 70, 71 >>, << 68, 70, 95, 70, 79, 71 >> }
Head6(b) == IF Len(b) < 6 THEN << >> ELSE SubSeq(b, 1, 6)
Kind(f) ==
    IF ~f.has THEN "none"
    ELSE IF Head6(f.b) = DFLVL
    THEN IF Len(f.b) < 22 \/ SubSeq(f.b, 17, 22) # DFMTD \/ U(f.b, 48, 16) <= 42 THEN "other"
         ELSE LET h == DecHead(f.b) IN IF h.ok /\ h.fsize = Len(f.b) THEN "level" ELSE "cut"
    ELSE IF Head6(f.b) \in Headers THEN (IF DecVarFile(f.b, Head6(f.b)).ok THEN "vars" ELSE "cutvars")
    ELSE "other"

Taken == << 105, 99, 111, 110, 95, 116, 97, 107, 101, 110 >>       \* icon_taken
True == [t |-> TBOOL, b |-> TRUE]
WithTaken(v) == IF HasK(v.kv, Taken) THEN [v EXCEPT !.kv = [i \in DOMAIN v.kv |-> IF v.kv[i].k = Taken THEN [k |-> Taken, v |-> True] ELSE v.kv[i]]]
                ELSE [v EXCEPT !.kv = Append(@, [k |-> Taken, v |-> True])]

Untouched(e) == e.t1 = e.t0 /\ e.i1 = e.i0 /\ e.rest
MustFail(e) == Clause("fail-outcome", e.rc = "fail") \cup Clause("fail-kept", Untouched(e))

LevelEdit(e, vs, sshot) ==
    IF e.rc # "ok" THEN {"edit-outcome"}
    ELSE IF ~e.t1.has THEN {"edit-lost"}
    ELSE LET h0 == DecHead(e.t0.b)
             h1 == DecHead(e.t1.b)
         IN  IF ~h1.ok THEN {"edit-malformed"}
             ELSE Clause("edit-variables", Same(vs, h1.vars))
                  \cup Clause("edit-thumbnail", h1.sshot = sshot)
                  \cup Clause("edit-regions", h1.nreg = h0.nreg /\ h1.dir = h0.dir
                              /\ SubSeq(e.t1.b, h1.base + 1, Len(e.t1.b)) = SubSeq(e.t0.b, h0.base + 1, Len(e.t0.b)))
                  \cup Clause("edit-size", h1.fsize = Len(e.t1.b))
                  \cup Clause("edit-next-id", h0.uid >= 0 => h1.uid >= h0.uid)
                  \cup Clause("edit-others", e.i1 = e.i0 /\ e.rest)
VarEdit(e, header, vs) ==
    IF e.rc # "ok" THEN {"edit-outcome"}
    ELSE IF ~e.t1.has THEN {"edit-lost"}
    ELSE LET d == DecVarFile(e.t1.b, header) IN
         IF ~d.ok THEN {"edit-malformed"}
         ELSE Clause("edit-variables", Same(vs, d.v)) \cup Clause("edit-others", e.i1 = e.i0 /\ e.rest)

(* the bytes a header option names *)
FailsUpdate(e, k) ==
    IF ~e.docok THEN MustFail(e)
    ELSE LET vs == Value(e.schema, e.doc) IN
         IF ~Covers(e.schema, e.doc) \/ Refused(vs, FALSE) THEN {"harness-document"}
         ELSE IF e.header # << >> THEN (IF e.header \in Headers THEN VarEdit(e, e.header, vs) ELSE MustFail(e))
         ELSE IF k = "level" THEN LevelEdit(e, vs, DecHead(e.t0.b).sshot)
         ELSE IF k = "vars" THEN VarEdit(e, Head6(e.t0.b), vs)
         ELSE IF k = "cutvars" THEN {}
         ELSE MustFail(e)
FailsPrint(e, k) ==
    Clause("print-kept", Untouched(e))
    \cup (IF k = "level" THEN Clause("print-outcome", Describable(DecHead(e.t0.b).vars) => e.rc = "ok")
          ELSE IF k = "vars" THEN Clause("print-outcome", Describable(DecVarFile(e.t0.b, Head6(e.t0.b)).v) => e.rc = "ok")
          ELSE IF k \in {"none", "other"} THEN Clause("fail-outcome", e.rc = "fail") ELSE {})
FailsExtract(e, k) ==
    IF e.i0.has /\ ~e.force THEN MustFail(e)
    ELSE IF k = "level" \/ (k = "cut" /\ DecHead(e.t0.b).ok)
    THEN Clause("extract-outcome", e.rc = "ok") \cup Clause("extract-level-kept", e.t1 = e.t0 /\ e.rest)
         \cup Clause("extract-image", e.i1.has /\ e.i1.b = DecHead(e.t0.b).sshot)
    ELSE IF k = "cut" THEN Clause("extract-level-kept", e.t1 = e.t0 /\ e.rest)
    ELSE MustFail(e)
FailsThumb(e, k) ==
    IF k # "level" \/ ~e.i0.has THEN MustFail(e)
    ELSE LevelEdit(e, WithTaken(DecHead(e.t0.b).vars), e.i0.b)
FailsConvert(e) == MustFail(e)

Fails(e) == LET k == Kind(e.t0) IN
            CASE e.c = "print" -> FailsPrint(e, k)
              [] e.c = "update" -> FailsUpdate(e, k)
              [] e.c = "extract" -> FailsExtract(e, k)
              [] e.c = "thumb" -> FailsThumb(e, k)
              [] e.c = "convert" -> FailsConvert(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f, info |-> Kind(e.t0)]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
