------------------------------ MODULE TileData ------------------------------
(* The 12-byte tile and dust records.  Sides: 0 top, 1 bottom, 2 left, 3 right. *)
(* An edge is the tuple                                                         *)
(*   << solid, visible, cap0, cap1, angle0, angle1,                             *)
(*      filth set, spike, fcap0, fcap1, fangle0, fangle1 >>                      *)
(* with corners in clockwise order; on disk the bottom and left sides store     *)
(* their corners the other way round.                                           *)
EXTENDS Bits
Sides == 0..3
SwapSide(s) == s \in {1, 2}
Pair(s, a, b) == IF SwapSide(s) THEN << b, a >> ELSE << a, b >>
NoDust == << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>

EdgeOf(d, q, s) ==
    LET caps == Pair(s, BitAt(d, 8 + 2 * s), BitAt(d, 9 + 2 * s))
        ang == Pair(s, I8(d[3 + 2 * s]), I8(d[4 + 2 * s]))
        fcap == Pair(s, BitAt(q, 80 + 2 * s), BitAt(q, 81 + 2 * s))
        fang == Pair(s, I8(q[3 + 2 * s]), I8(q[4 + 2 * s]))
    IN  << BitAt(d, s), BitAt(d, 4 + s), caps[1], caps[2], ang[1], ang[2],
           U(q, 4 * s, 3), BitAt(q, 4 * s + 3), fcap[1], fcap[2], fang[1], fang[2] >>
EdgesOf(d, q) == << EdgeOf(d, q, 0), EdgeOf(d, q, 1), EdgeOf(d, q, 2), EdgeOf(d, q, 3) >>
SpriteOf(d) == [ss |-> d[11] % 16, sp |-> d[11] \div 16, st |-> d[12]]

Byte8(v) == IF v < 0 THEN v + 256 ELSE v
SideP(s, e, i) == IF SwapSide(s) THEN << e[i + 1], e[i] >> ELSE << e[i], e[i + 1] >>
EncTileBytes(e, ss, sp, st) ==
    LET c(s) == SideP(s, e[s + 1], 3)
        a(s) == SideP(s, e[s + 1], 5)
        bits(i) == e[1][i] + 2 * e[2][i] + 4 * e[3][i] + 8 * e[4][i]
    IN  << bits(1) + 16 * bits(2),
           c(0)[1] + 2 * c(0)[2] + 4 * c(1)[1] + 8 * c(1)[2] + 16 * c(2)[1] + 32 * c(2)[2] + 64 * c(3)[1] + 128 * c(3)[2],
           Byte8(a(0)[1]), Byte8(a(0)[2]), Byte8(a(1)[1]), Byte8(a(1)[2]),
           Byte8(a(2)[1]), Byte8(a(2)[2]), Byte8(a(3)[1]), Byte8(a(3)[2]), ss + 16 * sp, st >>
EncDustBytes(e) ==
    LET c(s) == SideP(s, e[s + 1], 9)
        a(s) == SideP(s, e[s + 1], 11)
        nib(s) == e[s + 1][7] + 8 * e[s + 1][8]
    IN  << nib(0) + 16 * nib(1), nib(2) + 16 * nib(3),
           Byte8(a(0)[1]), Byte8(a(0)[2]), Byte8(a(1)[1]), Byte8(a(1)[2]),
           Byte8(a(2)[1]), Byte8(a(2)[2]), Byte8(a(3)[1]), Byte8(a(3)[2]),
           c(0)[1] + 2 * c(0)[2] + 4 * c(1)[1] + 8 * c(1)[2] + 16 * c(2)[1] + 32 * c(2)[2] + 64 * c(3)[1] + 128 * c(3)[2], 0 >>

HasFilth(e) == \E s \in 1..4 : e[s][7] # 0
ClearFilth(e) == [s \in 1..4 |-> SubSeq(e[s], 1, 6) \o << 0, 0, 0, 0, 0, 0 >>]
(* sprite sets whose tile of that index is a dust block *)
DustblockTile == << -1, 21, 13, 6, 9, 2, -1, -1 >>
IsDustblock(ss, st) == ss <= 7 /\ DustblockTile[ss + 1] = st
One(x) == IF x THEN 1 ELSE 0
CountEdges(e, F(_)) == One(F(e[1])) + One(F(e[2])) + One(F(e[3])) + One(F(e[4]))
IsDustEdge(x) == x[8] = 0 /\ x[7] # 0
IsSurface(x) == x[8] = 0 /\ x[1] = 1 /\ x[2] = 1
DustCount(e) == CountEdges(e, IsDustEdge)
SurfaceCount(e) == CountEdges(e, IsSurface)
=============================================================================
