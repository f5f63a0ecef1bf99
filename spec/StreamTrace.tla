---------------------------- MODULE StreamTrace ----------------------------
(* Judges recorded lives of readers and writers on real streams.              *)
EXTENDS StreamLife, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, s
Clause(n, ok) == IF ok THEN {} ELSE {n}
Next1(e) == IF e.op = "new" THEN Born(e.noclose) ELSE IF e.op \in Ends \cup {"write", "flush", "release", "read"} THEN After(s, e) ELSE s
Fails(e) ==
    LET n == Next1(e) IN
    CASE e.op = "new" -> Clause("start-position", e.tell = 8 * e.start) \cup Clause("open", e.isopen)
      [] e.op = "end" -> (* the wrapper is gone; what the stream holds beyond what was there before *)
           Clause("open", e.isopen = s.open) \cup Clause("content", ~e.writer \/ e.broken \/ e.data = Bytes(s.sent)) \cup Clause("earlier-content", e.before)
      [] e.op = "read" -> Clause("read", e.out = "ok" /\ e.value = e.want) \cup Clause("open", e.isopen)
      [] OTHER ->
           (IF ~May(s, e) THEN {"harness-order"} ELSE {})
           \cup Clause("outcome", e.out = (IF e.op = "raise" THEN "Body" ELSE "ok") \/ e.broken)
           \cup Clause("open", e.isopen = n.open)
           \cup Clause("visible", e.op \in Ends /\ e.writer /\ ~e.broken => e.data = Bytes(n.sent))
TInit == l = 1 /\ s = Born(FALSE)
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ s' = Next1(Trace[l])
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, s >>
=============================================================================
