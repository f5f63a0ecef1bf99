-------------------------------- MODULE Bits --------------------------------
(* Bit-level view of byte sequences: the Dustforce formats are streams of     *)
(* bits, least significant bit of the first byte first.                       *)
EXTENDS Integers, Sequences

P2T == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
          131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432,
          67108864, 134217728, 268435456, 536870912, 1073741824 >>
P2(n) == P2T[n + 1]                              \* n \in 0..30
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
AbsOf(a) == IF a < 0 THEN -a ELSE a

NumBits(bytes) == 8 * Len(bytes)
BitAt(bytes, p) == (bytes[(p \div 8) + 1] \div P2(p % 8)) % 2
BitsAt(bytes, p, n) == [i \in 1..n |-> BitAt(bytes, p + i - 1)]

(* unsigned little-endian field of n <= 30 bits (n = 31 also fits) *)
RECURSIVE U(_, _, _)
U(b, p, n) ==
    IF n <= 0 THEN 0
    ELSE LET o == p % 8
             k == MinOf(8 - o, n)
             here == (b[(p \div 8) + 1] \div P2(o)) % P2(k)
         IN  IF n = k THEN here ELSE here + P2(k) * U(b, p + k, n - k)

(* 32-bit fields are handled as their signed interpretation *)
I32(b, p) == LET lo == U(b, p, 31) IN IF BitAt(b, p + 31) = 1 THEN (lo - 2147483647) - 1 ELSE lo
I16(b, p) == LET v == U(b, p, 16) IN IF v >= 32768 THEN v - 65536 ELSE v
I8(v) == IF v >= 128 THEN v - 256 ELSE v

(* encoding into bit sequences *)
EncU(n, v) == [i \in 1..n |-> IF i = 32 THEN (IF v < 0 THEN 1 ELSE 0) ELSE (v \div P2(i - 1)) % 2]
Enc32(v) == EncU(32, v)

RECURSIVE EncBytesR(_, _)
EncBytesR(s, i) == IF i > Len(s) THEN << >> ELSE EncU(8, s[i]) \o EncBytesR(s, i + 1)
EncBytes(s) == [i \in 1..(8 * Len(s)) |-> (s[((i - 1) \div 8) + 1] \div P2((i - 1) % 8)) % 2]

PadTo8(bits) == bits \o [i \in 1..((8 - (Len(bits) % 8)) % 8) |-> 0]
ToBytes(bits) ==
    LET b == PadTo8(bits) IN
    [k \in 1..(Len(b) \div 8) |->
        b[8*k-7] + 2*b[8*k-6] + 4*b[8*k-5] + 8*b[8*k-4] + 16*b[8*k-3] + 32*b[8*k-2] + 64*b[8*k-1] + 128*b[8*k]]

AlignUp(p) == 8 * ((p + 7) \div 8)

(* concatenation of a sequence of sequences *)
(* (by halves; ss \o << >> makes TLC evaluate every element just once)      *)
RECURSIVE CatFrom(_, _, _)
CatFrom(ss, i, j) == IF i > j THEN << >> ELSE IF i = j THEN ss[i]
                     ELSE CatFrom(ss, i, (i + j) \div 2) \o CatFrom(ss, (i + j) \div 2 + 1, j)
Cat(ss) == LET t == ss \o << >> IN CatFrom(t, 1, Len(t))

Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
