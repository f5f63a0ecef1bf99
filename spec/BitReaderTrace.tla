---------------------------- MODULE BitReaderTrace ----------------------------
EXTENDS BitReader, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Next0(e) == CASE e.op = "new" -> e.pos
              [] e.op = "read" -> pos + e.n
              [] e.op = "bytes" -> pos + 8 * e.n
              [] e.op = "align" -> AlignUp(pos)
              [] e.op = "seek" -> e.to
              [] e.op = "skip" -> pos + e.n
Fails(e) ==
    Clause("outcome", e.out = "ok")
    \cup Clause("position", e.tell = Next0(e))
    \cup Clause("aligned", e.aligned = (Next0(e) % 8 = 0))
    \cup (IF e.op = "read" /\ e.out = "ok"
          THEN Clause("bits", e.bits = ReadBits(stream, pos, e.n))
               \cup Clause("sign", e.sign = ReadSign(stream, pos, e.n, e.signed))
          ELSE {})
    \cup (IF e.op = "bytes" /\ e.out = "ok"
          THEN Clause("bytes", e.bytes = ToBytes(ReadBits(stream, pos, 8 * e.n))) ELSE {})
TInit == RInit(<< >>) /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  /\ stream' = IF e.op = "new" THEN e.stream ELSE stream
                /\ pos' = Next0(e)
                /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
         /\ UNCHANGED << dpos, buf, left, ret >>
TSpec == TInit /\ [][TNext]_<< rvars, l >>
=============================================================================
