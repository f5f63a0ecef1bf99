----------------------------- MODULE FuncTrace ------------------------------
(* Judges recorded histories of evaluations on real objects. Contents and       *)
(* results are digests; e.fresh comes from a process of its own.                *)
EXTENDS Func, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, known
Clause(n, ok) == IF ok THEN {} ELSE {n}
Known(e) == IF e.first THEN [k \in {} |-> ""] ELSE known
Fails(e) ==
    IF e.op = "eval" THEN
        Clause("result-by-history", Same(e))
        \cup Clause("not-a-function", Function(Known(e), e))
        \cup Clause("argument-changed", OnlyLooked(e))
        \cup Clause("bystander-changed", Bystanders(e))
    ELSE (* "bytes": the same object written twice, in a later and in another process *)
        Clause("bytes-repeat", e.out = e.again)
        \cup Clause("bytes-later", e.out = e.later)
        \cup Clause("bytes-elsewhere", e.out = e.other)
TInit == l = 1 /\ known = [k \in {} |-> ""]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
                /\ known' = IF e.op = "eval" THEN Learn(Known(e), e) ELSE Known(e)
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, known >>
=============================================================================
