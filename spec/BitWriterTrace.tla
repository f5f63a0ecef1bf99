---------------------------- MODULE BitWriterTrace ----------------------------
(* Judges recorded executions of the real bit writer against the ideal stream  *)
(* of BitWriter: every event carries the reported position, alignment and       *)
(* outcome; the final event the bytes of the underlying stream.                 *)
EXTENDS BitWriter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

Prev == Ideal
After(e) ==
    CASE e.op = "new"   -> [m |-> e.mem, p |-> e.pos, md |-> "stream", err |-> FALSE]
      [] e.op = "write" -> IdealWrite(Prev, e.bits)
      [] e.op = "bytes" -> IdealWrite(Prev, EncBytes(e.bytes))
      [] e.op = "align" -> IdealAlign(Prev)
      [] e.op = "flush" -> IdealFlush(Prev)
      [] e.op = "close" -> IdealFlush(Prev)
      [] e.op = "seek"  -> IdealSeek(Prev, e.to, e.allow)
      [] e.op = "skip"  -> IdealSeek(Prev, Prev.p + e.n, FALSE)

Fails(e, s) ==
    Clause("outcome", IF s.err THEN e.out = "RuntimeError" ELSE e.out = "ok")
    \cup (IF e.op = "close" THEN Clause("stream-content", e.data = s.m)
          ELSE Clause("position", e.tell = s.p) \cup Clause("aligned", e.aligned = (s.p % 8 = 0)))

TInit == mem = << >> /\ pos = 0 /\ mode = "stream" /\ data = << >> /\ dpos = 0 /\ buf = 0 /\ left = 0 /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                s == After(e)
                f == Fails(e, s)
            IN  /\ SetIdeal(s)
                /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f, info |-> [mem |-> s.m, pos |-> s.p]]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
         /\ UNCHANGED << data, dpos, buf, left >>
TSpec == TInit /\ [][TNext]_<< wvars, l >>
=============================================================================
