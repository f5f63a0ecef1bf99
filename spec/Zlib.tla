-------------------------------- MODULE Zlib --------------------------------
(* zlib streams: the specification writes stored blocks only; for anything else *)
(* the recorded trace carries the decompressed bytes.                            *)
EXTENDS Bits
(* zlib stream made of one stored block *)
(* (in pieces of 128 bytes: deep recursion is slow in TLC) *)
RECURSIVE AdlerR(_, _, _, _, _), AdlerP(_, _, _)
AdlerR(raw, i, to, a, b) == IF i > to THEN << a, b >>
                            ELSE LET a2 == (a + raw[i]) % 65521 IN AdlerR(raw, i + 1, to, a2, (b + a2) % 65521)
AdlerP(raw, i, ab) == IF i > Len(raw) THEN ab
                      ELSE AdlerP(raw, i + 128, AdlerR(raw, i, MinOf(i + 127, Len(raw)), ab[1], ab[2]))
Adler(raw) == AdlerP(raw, 1, << 1, 0 >>)
ZStore(raw) ==
    LET n == Len(raw)
        ad == Adler(raw)
    IN  << 120, 1, 1, n % 256, n \div 256, 255 - (n % 256), 255 - (n \div 256) >> \o raw
        \o << ad[2] \div 256, ad[2] % 256, ad[1] \div 256, ad[1] % 256 >>
Stored(b, o, n) ==       \* n bytes at byte offset o are a stored stream
    /\ n >= 11 /\ o + n <= Len(b) /\ b[o + 1] = 120 /\ b[o + 2] = 1 /\ b[o + 3] = 1
    /\ b[o + 4] + 256 * b[o + 5] = n - 11
=============================================================================
