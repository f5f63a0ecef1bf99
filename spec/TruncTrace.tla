------------------------------ MODULE TruncTrace ------------------------------
(* Judges recorded reads of cut-off files (C11).  One event per file: runs of    *)
(* cuts with the same outcome, << first cut, last cut, outcome >>.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
Outcomes == {"ok", "error"}
Covers(e) == /\ Len(e.runs) > 0 => e.runs[1][1] = 0
             /\ \A i \in 1..(Len(e.runs) - 1) : e.runs[i + 1][1] = e.runs[i][2] + 1
Fails(e) ==
    IF ~Covers(e) THEN {"harness-cover"}
    ELSE Clause("trunc-terminates", \A i \in 1..Len(e.runs) : e.runs[i][3] \in Outcomes)
         \cup Clause("trunc-replay-error", e.kind = "replay" => \A i \in 1..Len(e.runs) : (e.runs[i][3] = "ok" => e.runs[i][1] >= e.len))
         \cup Clause("trunc-whole", \A i \in 1..Len(e.runs) : (e.runs[i][2] >= e.len => e.runs[i][3] = "ok"))
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
