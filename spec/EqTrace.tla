------------------------------- MODULE EqTrace -------------------------------
(* Judges observed comparisons, hashes and copies of real variables and tiles. *)
EXTENDS EqVal, TLC, Json, IOUtils
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Want(e) == IF e.kind = "var" THEN SameVal(e.a, e.b) ELSE IF e.kind = "tile" THEN SameTile(e.a, e.b) ELSE FALSE
(* negative and positive zero: equal or not, but hashes and sets agree with it *)
FailsLoose(e) ==
    Clause("eq-defined", e.eq # "err" /\ e.eqr # "err" /\ e.ne # "err")
    \cup Clause("symmetric", e.eqr = e.eq)
    \cup Clause("ne", e.ne # e.eq)
    \cup Clause("hashable", e.hash # "err")
    \cup Clause("hash-agrees", e.eq = "T" => e.hash = "same")
    \cup Clause("member", e.member = e.eq)
    \cup Clause("set-size", e.size = (IF e.eq = "T" THEN 1 ELSE 2))
Fails(e) == IF e.kind = "zero" THEN FailsLoose(e) ELSE
    LET w == Want(e) IN
    Clause("eq-defined", e.eq # "err" /\ e.eqr # "err" /\ e.ne # "err")
    \cup Clause("eq", e.eq \in {"err", IF w THEN "T" ELSE "F"})
    \cup Clause("symmetric", e.eqr \in {"err", IF w THEN "T" ELSE "F"})
    \cup Clause("ne", e.ne \in {"err", IF w THEN "F" ELSE "T"})
    \cup Clause("reflexive", e.refl = "T")
    \cup Clause("hashable", e.hash # "err")
    \cup Clause("hash-agrees", w => e.hash = "same")
    \cup Clause("member", e.member = (IF w THEN "T" ELSE "F"))
    \cup Clause("set-size", e.size = (IF w THEN 1 ELSE 2))
    \cup (IF e.kind = "other" THEN {}
          ELSE Clause("content", e.seen = e.a)
               \cup Clause("copy-equal", e.copyeq = "T" /\ e.copyhash)
               \cup Clause("copy-content", e.copied = e.a)
               \cup Clause("copy-independent", e.after = e.a))
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
