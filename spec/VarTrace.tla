------------------------------ MODULE VarTrace ------------------------------
(* Judges recorded uses of the variable, float, text and variable-file codecs.  *)
(* rt-*: what is read back equals what was written (C03)                        *)
(* enc-*, dec-*: the bytes are the format's (C04)                               *)
EXTENDS VarCodec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

Lead(n) == [i \in 1..n |-> 1]
Small(e) == Len(e.bytes) <= 400
NextGrid(i, f) == IF f = 2147483647 THEN << i + 1, 0 >> ELSE << i, f + 1 >>

FailsVar(e) ==
    IF Refused(e.v, FALSE) THEN Clause("rt-refused", e.out = "ValueError")
    ELSE IF e.out # "ok" THEN {"rt-write-outcome", "enc-outcome"}
    ELSE Clause("rt-read-outcome", e.rout = "ok")
         \cup Clause("rt-value", e.rout = "ok" => e.r = e.v)
         \cup Clause("rt-consumed", e.rout = "ok" => e.r1 = e.w1)
         \cup (LET d == DecVar(e.bytes, e.off, e.v.t) IN
               IF ~d.ok THEN {"enc-malformed"}
               ELSE Clause("enc-value", d.v = e.v) \cup Clause("enc-length", d.p = e.w1)
                    \cup Clause("enc-padding", Len(e.bytes) = (e.w1 + 7) \div 8
                                 /\ U(e.bytes, d.p, AlignUp(d.p) - d.p) = 0))
         \cup (IF Small(e) THEN Clause("enc-bits", e.bytes = ToBytes(Lead(e.off) \o EncVar(e.v))) ELSE {})

(* a stream made by the specification, read by the code *)
FailsDec(e) ==
    LET d == DecVar(e.bytes, e.off, e.ty) IN
    IF ~d.ok THEN {"harness-bad-stream"}
    ELSE Clause("dec-outcome", e.rout = "ok")
         \cup Clause("dec-value", e.rout = "ok" => e.r = d.v)
         \cup Clause("dec-consumed", e.rout = "ok" => e.r1 = d.p)

FailsApx(e) == Clause("rt-float-resolution",
                      e.rout = "ok" /\ e.r.t = TFLOAT /\ << e.r.i, e.r.f >> \in { << e.i, e.f >>, NextGrid(e.i, e.f) })

FailsFile(e) ==
    IF Refused(e.v, FALSE) THEN Clause("rt-refused", e.out = "ValueError")
    ELSE IF e.out # "ok" THEN {"rt-write-outcome", "enc-outcome"}
    ELSE Clause("enc-file", e.bytes = EncVarFile(e.header, e.v))
         \cup (LET d == DecVarFile(e.bytes, e.header) IN Clause("enc-file-parse", d.ok /\ d.v = e.v))
         \cup Clause("rt-file", e.rout = "ok" /\ e.r = e.v)
         \cup Clause("enc-file-end", e.w1 = 8 * Len(e.bytes))

FailsText(e) ==
    IF ~ValidText(e.k) THEN Clause("rt-text-refused", e.out = "ValueError")
    ELSE Clause("enc-text", e.out = "ok" /\ e.bytes = ToBytes(Lead(e.off) \o EncText(e.k)) /\ e.w1 = e.off + 6 + 6 * Len(e.k))
         \cup Clause("dec-text", e.rout = "ok" /\ e.r = e.k /\ e.r1 = e.off + 6 + 6 * Len(e.k))

FailsFix(e) ==
    Clause("enc-fix", e.out = "ok" /\ e.bytes = ToBytes(Lead(e.off) \o EncFix(e.ib, e.fb, e.i, e.f)) /\ e.w1 = e.off + e.ib + e.fb)
    \cup Clause("dec-fix", e.rout = "ok" /\ e.r = << e.i, e.f >> /\ e.r1 = e.off + e.ib + e.fb)

(* floats beyond the 31 bits of the integer part (hi: their higher bits) *)
FailsBig(e) == Clause("rt-refused-float", (e.hi > 0) = (e.out = "ValueError") /\ e.out \in {"ok", "ValueError"})

(* limits of counted containers, stated on lengths only *)
RECURSIVE PartsOf(_, _)
PartsOf(ls, i) == IF i > Len(ls) THEN 0 ELSE NParts(ls[i]) + PartsOf(ls, i + 1)
FailsLimit(e) ==
    LET n == IF e.et = TSTR THEN e.plain + PartsOf(e.lens, 1) ELSE e.plain
    IN  IF n > 65535 THEN Clause("rt-refused", e.out = "ValueError")
        ELSE Clause("rt-limit", e.out = "ok" /\ e.same)
             \cup Clause("enc-count", e.out = "ok" => e.count = n)

Fails(e) == CASE e.op = "var" -> FailsVar(e)
              [] e.op = "dec" -> FailsDec(e)
              [] e.op = "apx" -> FailsApx(e)
              [] e.op = "file" -> FailsFile(e)
              [] e.op = "text" -> FailsText(e)
              [] e.op = "fix" -> FailsFix(e)
              [] e.op = "limit" -> FailsLimit(e)
              [] e.op = "big" -> FailsBig(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
