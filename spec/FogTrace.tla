------------------------------- MODULE FogTrace -------------------------------
(* Judges recorded uses of real fog triggers. Colours and gradient entries are *)
(* integers, blend factors eighths.                                            *)
EXTENDS Fog, TLC, Json, IOUtils
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
LegalE(e) == e.layer \in 0..(NLayers - 1) /\ (e.hassub => e.sub \in 0..(NSub - 1))
IndexE(e) == Index(e.layer, IF e.hassub THEN e.sub ELSE NoSub)
Fails(e) ==
    CASE e.op = "index" ->
           IF LegalE(e) THEN Clause("index-defined", e.ok) \cup Clause("index", e.ok => e.n = IndexE(e)) ELSE Clause("index-refused", ~e.ok)
      [] e.op = "norm" ->
           Clause("normalises", e.ok)
           \cup Clause("colours", e.col1 = Fit(e.col0, Want(e.hassub), Colour0.n))
           \cup Clause("blend", e.per1 = Fit(e.per0, Want(e.hassub), Per0.i))
           \cup Clause("gradient", e.grad1 = Fit(e.grad0, 3, Grad0.n))
           \cup Clause("rest", e.rest)
      [] e.op = "edit" ->
           Clause("addressable", e.ok)
           \cup Clause("edit", e.ok => e.col1 = [e.col0 EXCEPT ![IndexE(e) + 1] = e.v] /\ e.per1 = [e.per0 EXCEPT ![IndexE(e) + 1] = e.w])
           \cup Clause("read-back", e.ok => e.gotv = e.v /\ e.gotw = e.w)
           \cup Clause("rest", e.rest /\ e.grad1 = e.grad0)
      [] OTHER -> {"harness-op"}
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
