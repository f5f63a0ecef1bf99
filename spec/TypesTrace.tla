------------------------------ MODULE TypesTrace ------------------------------
(* Judges recorded constructions and type checks of real variables. *)
EXTENDS VarTypes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
Fails(e) ==
    CASE e.op = "make" -> IF Open(e.t, e.raw) THEN {"harness-open"}
                          ELSE Clause("constructor", e.out = (IF Fits(e.t, e.raw) THEN "ok" ELSE "AssertionError"))
      [] e.op = "check" ->
           LET want == Pre(e.tree) IN
           (IF Len(want) # Len(e.outs) THEN {"harness-order"}
            ELSE Clause("assert-types", \A i \in DOMAIN want : e.outs[i] = (IF want[i] THEN "ok" ELSE "ValueError")))
           \cup Clause("enclosing", e.wrap = (IF WT(e.tree) THEN "ok" ELSE "AssertionError"))
           \cup Clause("enclosing-array", e.wrapa = (IF WT(e.tree) THEN "ok" ELSE "AssertionError"))
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
