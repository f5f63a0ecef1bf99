------------------------------ MODULE BitReader ------------------------------
(* The bit reader over a fixed stream.  Ideal state: the position only.        *)
(* Implementation state: dpos (bytes taken from the stream), buf/left (bits of  *)
(* the current byte not consumed; buf = << -1 >> after a seek into a byte).     *)
EXTENDS Bits, FiniteSets
CONSTANT MutateAlign       \* TRUE: align after an unaligned seek forgets the unread byte
VARIABLES stream, pos, dpos, buf, left, ret
rvars == << stream, pos, dpos, buf, left, ret >>

(* the value of a read: n bits, and the sign bit that extends them *)
ReadBits(b, p, n) == BitsAt(b, p, n)
ReadSign(b, p, n, signed) == IF signed THEN BitAt(b, p + n - 1) ELSE 0
CanRead(b, p, n) == p + n <= NumBits(b)

RInit(b) == stream = b /\ pos = 0 /\ dpos = 0 /\ buf = << >> /\ left = 0 /\ ret = << >>

ImplRead(n) ==
    LET mid == buf = << -1 >>
        need == ((n - left + 7) \div 8) + (IF mid THEN 1 ELSE 0)
        taken == [i \in 1..(8 * need) |-> BitAt(stream, 8 * dpos + i - 1)]
        have == IF mid THEN [i \in 1..left |-> BitAt(stream, 8 * dpos + (8 - left) + i - 1)] ELSE buf
        extra == IF mid THEN [i \in 1..(8 * (need - 1)) |-> taken[8 + i]] ELSE taken
        all == have \o extra
    IN  /\ dpos' = dpos + need
        /\ ret' = SubSeq(all, 1, n)
        /\ buf' = SubSeq(all, n + 1, Len(all))
        /\ left' = Len(all) - n

Read(n) == /\ n >= 1 /\ CanRead(stream, pos, n) /\ ImplRead(n) /\ pos' = pos + n /\ UNCHANGED stream
Align == /\ pos' = AlignUp(pos)
         /\ dpos' = IF buf = << -1 >> /\ ~MutateAlign THEN dpos + 1 ELSE dpos
         /\ buf' = << >> /\ left' = 0 /\ ret' = << >> /\ UNCHANGED stream
Seek(p) == /\ p >= 0 /\ p <= NumBits(stream)
           /\ pos' = p /\ dpos' = p \div 8
           /\ left' = (8 - (p % 8)) % 8
           /\ buf' = (IF p % 8 = 0 THEN << >> ELSE << -1 >>)
           /\ ret' = << >> /\ UNCHANGED stream

(* a read yields the bits at the reported position, whatever led there *)
Coherent == IF buf = << -1 >> THEN pos = 8 * dpos + 8 - left /\ left > 0
            ELSE /\ Len(buf) = left /\ left < 8
                 /\ pos = 8 * dpos - left
                 /\ buf = BitsAt(stream, pos, left)
=============================================================================
