------------------------------ MODULE BitWriter ------------------------------
(* The bit writer.  Two descriptions move in lock step:                        *)
(*   mem, pos, mode   what a user relies on - the content the stream has once   *)
(*                    flushed, the reported position, and whether the position  *)
(*                    was entered by a seek and not yet written to;             *)
(*   data, dpos, buf, left   a buffered implementation that emits whole bytes   *)
(*                    (buf = -1: a byte entered by an unaligned seek).          *)
(* Refines states that the implementation realises the ideal stream.            *)
EXTENDS Bits, FiniteSets

CONSTANT MutateFlush,     \* TRUE: flush forgets that it emitted the pending byte
         MutateSeek       \* TRUE: an unaligned seek keeps the stale pending byte

VARIABLES mem, pos, mode, data, dpos, buf, left
wvars == << mem, pos, mode, data, dpos, buf, left >>

Old(m, k) == IF k < Len(m) THEN m[k + 1] ELSE 0          \* 0-based byte, zero filled gap
OldBit(m, p) == (Old(m, p \div 8) \div P2(p % 8)) % 2

(* ---- ideal stream: pure transition functions, shared with the trace spec ---- *)
PutBits(m, p, md, bits) ==
    LET n == Len(bits)
        e == p + n
        fb == p \div 8
        lb == (e - 1) \div 8
        bit(q) == IF q < p THEN (IF md = "seek" THEN 0 ELSE OldBit(m, q))
                  ELSE IF q < e THEN bits[q - p + 1] ELSE 0
        byte(k) == bit(8*k) + 2*bit(8*k+1) + 4*bit(8*k+2) + 8*bit(8*k+3)
                   + 16*bit(8*k+4) + 32*bit(8*k+5) + 64*bit(8*k+6) + 128*bit(8*k+7)
    IN  IF n = 0 THEN m
        ELSE [k1 \in 1..MaxOf(Len(m), lb + 1) |->
                 IF k1 - 1 < fb \/ k1 - 1 > lb THEN Old(m, k1 - 1) ELSE byte(k1 - 1)]

IdealWrite(s, bits) == [m |-> PutBits(s.m, s.p, s.md, bits), p |-> s.p + Len(bits),
                        md |-> IF Len(bits) = 0 THEN s.md ELSE "stream", err |-> FALSE]
IdealAlign(s) == [m |-> s.m, p |-> AlignUp(s.p), md |-> "stream", err |-> FALSE]
(* flush with nothing pending leaves everything alone *)
IdealFlush(s) == IF s.md = "seek" /\ s.p % 8 # 0 THEN [s EXCEPT !.err = FALSE] ELSE IdealAlign(s)
IdealSeek(s, p, allow) ==
    IF p % 8 # 0 /\ ~allow THEN [s EXCEPT !.err = TRUE]
    ELSE [m |-> s.m, p |-> p, md |-> "seek", err |-> FALSE]

Ideal == [m |-> mem, p |-> pos, md |-> mode, err |-> FALSE]
SetIdeal(s) == mem' = s.m /\ pos' = s.p /\ mode' = s.md

(* ---- buffered implementation ---- *)
PutBytes(d, at, bs) ==
    [k \in 1..MaxOf(Len(d), IF Len(bs) = 0 THEN 0 ELSE at + Len(bs)) |->
        IF k > at /\ k <= at + Len(bs) THEN bs[k - at] ELSE Old(d, k - 1)]

ImplWrite(bits) ==
    LET b0 == IF buf = -1 THEN 0 ELSE buf
        n == Len(bits)
        lead == MinOf(left, n)
        leadval == ToBytes([i \in 1..lead |-> bits[i]] \o [i \in 1..(8 - lead) |-> 0])[1]
        b1 == IF left = 0 THEN 0 ELSE b0 + leadval * P2(8 - left)
        full == (n - left) \div 8
        rest == [i \in 1..(n - left) |-> bits[left + i]]
        out == (IF left # 0 THEN << b1 >> ELSE << >>) \o SubSeq(ToBytes(rest), 1, full)
        used == 8 * full + left
    IN  IF n < left
        THEN buf' = b1 /\ left' = left - n /\ UNCHANGED << data, dpos >>
        ELSE /\ data' = PutBytes(data, dpos, out)
             /\ dpos' = dpos + Len(out)
             /\ IF used = n THEN buf' = 0 /\ left' = 0
                ELSE buf' = ToBytes(rest)[full + 1] /\ left' = 8 - (n - used)

FlushData == IF left # 0 /\ buf # -1
             THEN [d |-> PutBytes(data, dpos, << buf >>), p |-> IF MutateFlush THEN dpos ELSE dpos + 1,
                   b |-> 0, l |-> IF MutateFlush THEN left ELSE 0]
             ELSE [d |-> data, p |-> dpos, b |-> buf, l |-> left]
ImplFlush == data' = FlushData.d /\ dpos' = FlushData.p /\ buf' = FlushData.b /\ left' = FlushData.l
ImplAlign == data' = FlushData.d /\ dpos' = (IF buf = -1 THEN dpos + 1 ELSE FlushData.p)
             /\ buf' = 0 /\ left' = 0
ImplSeek(p, allow) ==
    IF p % 8 # 0 /\ ~allow THEN UNCHANGED << data, dpos, buf, left >>
    ELSE /\ data' = FlushData.d /\ dpos' = p \div 8
         /\ left' = (8 - (p % 8)) % 8
         /\ buf' = IF p % 8 = 0 THEN 0 ELSE IF MutateSeek THEN MaxOf(buf, 0) ELSE -1

(* ---- actions ---- *)
Write(bits) == SetIdeal(IdealWrite(Ideal, bits)) /\ ImplWrite(bits)
WriteBytes(bs) == Write(EncBytes(bs))
Flush == SetIdeal(IdealFlush(Ideal)) /\ ImplFlush
Align == SetIdeal(IdealAlign(Ideal)) /\ ImplAlign
Seek(p, allow) == SetIdeal(IdealSeek(Ideal, p, allow)) /\ ImplSeek(p, allow)
Skip(n) == Seek(pos + n, FALSE)

WInit(m, p) == /\ mem = m /\ pos = p /\ mode = "stream"
               /\ data = m /\ dpos = p \div 8 /\ buf = 0 /\ left = 0

(* ---- properties ---- *)
Settled == IF left # 0 /\ buf # -1 THEN PutBytes(data, dpos, << buf >>) ELSE data
Refines == /\ Settled = mem
           /\ pos = (8 * dpos) + (IF left = 0 THEN 0 ELSE 8 - left)
           /\ (left = 0) = (pos % 8 = 0)
           /\ (buf = -1) = (mode = "seek" /\ pos % 8 # 0)
TypeOK == /\ \A k \in 1..Len(mem) : mem[k] \in 0..255
          /\ pos \in Nat /\ mode \in {"stream", "seek"} /\ left \in 0..7 /\ buf \in -1..255
(* every write puts its field where the position said and touches no other byte *)
WriteExact(bits) ==
    /\ pos' = pos + Len(bits)
    /\ BitsAt(mem', pos, Len(bits)) = bits
    /\ \A k \in 1..Len(mem) :
          (8 * k <= pos \/ 8 * (k - 1) >= pos + Len(bits)) => mem'[k] = mem[k]
    /\ (mode = "stream") => BitsAt(mem', 8 * (pos \div 8), pos % 8)
                            = [i \in 1..(pos % 8) |-> OldBit(mem, 8 * (pos \div 8) + i - 1)]
PadExact == /\ pos' = AlignUp(pos) /\ Len(mem') = Len(mem) /\ mem' = mem
=============================================================================
