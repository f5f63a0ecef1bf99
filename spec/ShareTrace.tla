------------------------------ MODULE ShareTrace ------------------------------
(* Judges recorded histories of real objects; e.all lists << object, part,      *)
(* content >> of the whole population after the operation.                      *)
EXTENDS Share, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, c
Clause(n, ok) == IF ok THEN {} ELSE {n}
AsMap(s) == [k \in { << s[i][1], s[i][2] >> : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k[1] /\ s[i][2] = k[2]][3]]
Old(e) == IF e.first THEN [k \in {} |-> ""] ELSE c
Fails(e) ==
    LET new == AsMap(e.all) IN
    (IF Cardinality(DOMAIN new) # Len(e.all) \/ ~Fresh(e, Old(e)) THEN {"harness-parts"} ELSE {})
    \cup Clause("others-unchanged", Allowed(e, Old(e), new))
    \cup Clause("copy-alike", Alike(e, Old(e), new))
    \cup Clause("outcome", e.op \in {"new", "read", "copy", "merge"} => e.out = "ok")
TInit == l = 1 /\ c = [k \in {} |-> ""]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
                /\ c' = AsMap(e.all)
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, c >>
=============================================================================
