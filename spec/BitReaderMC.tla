----------------------------- MODULE BitReaderMC -----------------------------
EXTENDS BitReader, TLC, Json
CONSTANTS Depth, Emitting
VARIABLE hist
Streams == { << 180, 210, 1, 255, 128 >>, << 255, 0, 85 >> }
Init == \E b \in Streams : RInit(b) /\ hist = << >>
Widths == {1, 2, 3, 5, 7, 8, 9, 13, 16}
SeekTo == {0, 1, 4, 7, 8, 12, 15, 16, 21}
Step ==
    \/ \E n \in Widths, s \in BOOLEAN : Read(n)
         /\ hist' = Append(hist, [op |-> "read", n |-> n, signed |-> s,
                                  bits |-> ReadBits(stream, pos, n), sign |-> ReadSign(stream, pos, n, s), tell |-> pos'])
    \/ \E n \in {1, 2} : Read(8 * n)
         /\ hist' = Append(hist, [op |-> "bytes", n |-> n, bytes |-> ToBytes(ReadBits(stream, pos, 8 * n)), tell |-> pos'])
    \/ Align /\ hist' = Append(hist, [op |-> "align", tell |-> pos'])
    \/ \E p \in SeekTo : Seek(p) /\ hist' = Append(hist, [op |-> "seek", to |-> p, tell |-> pos'])
    \/ \E n \in {-9, -8, -1, 3, 8} : Seek(pos + n) /\ hist' = Append(hist, [op |-> "skip", n |-> n, tell |-> pos'])
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_<< rvars, hist >>
View == << stream, pos, dpos, buf, left, ret, Len(hist) >>
(* the buffered reader returns what the ideal reader returns *)
ReadExact == [][ LET o == hist'[Len(hist')] IN
                 /\ (o.op = "read") => ret' = ReadBits(stream, pos, o.n)
                 /\ (o.op = "bytes") => ToBytes(ret') = o.bytes ]_<< rvars, hist >>
Emit == Emitting => PrintT("J " \o ToJson([stream |-> stream, ops |-> hist']))
=============================================================================
