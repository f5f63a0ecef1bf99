------------------------------- MODULE EntTrace -------------------------------
(* Judges which classes real levels are read into and which hooks are called.  *)
EXTENDS EntTypes, FiniteSets, TLC, Json, IOUtils
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Fails(e) ==
    CASE e.op = "read" ->
           Clause("readable", e.ok)
           \cup (IF ~e.ok THEN {} ELSE
                 Clause("entities", Len(e.got) = Len(e.types))
                 \cup Clause("class", \A k \in DOMAIN e.got : k \in DOMAIN e.types => e.got[k].cls = ClassOf(e.defs, e.types[k]))
                 \cup Clause("etype", \A k \in DOMAIN e.got : k \in DOMAIN e.types => e.got[k].etype = e.types[k])
                 \cup Clause("accessor", \A k \in DOMAIN e.got : e.got[k].val = e.got[k].want)
                 \cup Clause("rewritten", e.again = e.types))
      [] e.op = "new" -> Clause("new-etype", e.ok /\ e.etype = e.want)
      [] e.op = "hooks" ->
           Clause("transformed", e.ok)
           \cup Clause("each-once", \A k \in DOMAIN e.calls : e.calls[k] = 1)
           \cup Clause("same-map", e.args)
      [] OTHER -> {"harness-op"}
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
