----------------------------- MODULE BitWriterMC -----------------------------
EXTENDS BitWriter, TLC, Json
CONSTANTS Depth, MaxPos, Emitting
VARIABLES hist, start
mvars == << wvars, hist, start >>

Ones(n) == [i \in 1..n |-> 1]
Alt(n) == [i \in 1..n |-> (i + 1) % 2]
Fields == {Ones(n) : n \in {1, 3, 8, 11}} \cup {Alt(n) : n \in {2, 7, 9, 16}}
ByteOps == { << 255 >>, << 129, 64 >> }
SeekTo == {0, 3, 8, 13, 16, 24}

Starts == { << << >>, 0 >>, << <<165, 90, 255>>, 8 >>, << << 255 >>, 8 >> }

Init == \E s \in Starts : WInit(s[1], s[2]) /\ hist = << >> /\ start = [m |-> s[1], p |-> s[2]]

Log(op) == hist' = Append(hist, op) /\ start' = start

Step ==
    \/ \E f \in Fields : Write(f) /\ Log([op |-> "write", bits |-> f])
    \/ \E bs \in ByteOps : WriteBytes(bs) /\ Log([op |-> "bytes", bytes |-> bs])
    \/ Align /\ Log([op |-> "align"])
    \/ (mode # "seek" \/ pos % 8 = 0) /\ Flush /\ Log([op |-> "flush"])
    \/ \E p \in SeekTo, a \in BOOLEAN : Seek(p, a) /\ Log([op |-> "seek", to |-> p, allow |-> a])
    \/ \E n \in {3, 8} : Skip(n) /\ Log([op |-> "skip", n |-> n])

Next == Len(hist) < Depth /\ pos < MaxPos /\ Step
Spec == Init /\ [][Next]_mvars
View == << mem, pos, mode, data, dpos, buf, left, Len(hist) >>

Last == hist'[Len(hist')]
Exact == [][ /\ (Last.op = "write") => WriteExact(Last.bits)
             /\ (Last.op = "bytes") => WriteExact(EncBytes(Last.bytes))
             /\ (Last.op \in {"align", "flush"}) => PadExact
             /\ (Last.op \in {"seek", "skip"}) => mem' = mem ]_mvars

Emit == Emitting => PrintT("J " \o ToJson([start |-> start, ops |-> hist', mem |-> mem', pos |-> pos',
                                        aligned |-> (pos' % 8 = 0)]))
=============================================================================
