------------------------------- MODULE TileUp -------------------------------
(* Enlarging tiles: the parts of the enlarged outline, cell by cell.             *)
EXTENDS TileGeom
CONSTANT MaxFactor
(* Sample points of a cell, off every line an outline can run along: a half tile  *)
(* is 44 units, points at 11i+1, 11j+3.                                           *)
UNIT == 44
Pts == {<< 11 * i + 1, 11 * j + 3 >> : i, j \in 0..7}
Left(a, b, p, f) ==            \* p (units) strictly inside of edge a-b scaled by f
    (b[1] - a[1]) * (p[2] - UNIT * f * a[2]) - (b[2] - a[2]) * (p[1] - UNIT * f * a[1])
Inside(sh, f, p) == \A i \in 0..3 : Vert(sh, i) = Vert(sh, i + 1) \/ Left(Vert(sh, i), Vert(sh, i + 1), p, f) > 0
Mask(sh) == {p \in Pts : Inside(sh, 1, p)}
Masks == [sh \in Shapes |-> Mask(sh)]
ASSUME \A a, b \in Shapes : Masks[a] = Masks[b] => a = b
CellMask(sh, f, dx, dy) == {p \in Pts : Inside(sh, f, << p[1] + 2 * UNIT * dx, p[2] + 2 * UNIT * dy >>)}
NONE == -1
CellShape0(sh, f, dx, dy) ==
    LET m == CellMask(sh, f, dx, dy) IN IF m = {} THEN NONE ELSE CHOOSE q \in Shapes : Masks[q] = m
CellTable == [f \in 1..MaxFactor |-> [sh \in Shapes |-> [dx \in 0..(f - 1) |-> [dy \in 0..(f - 1) |-> CellShape0(sh, f, dx, dy)]]]]
CellShape(sh, f, dx, dy) == CellTable[f][sh][dx][dy]
(* the part of the enlarged edge of side s that sub-tile edge t lies on *)
Scaled(p, f) == << f * p[1], f * p[2] >>
At(p, dx, dy) == << p[1] + 2 * dx, p[2] + 2 * dy >>
Sub(a, b) == << a[1] - b[1], a[2] - b[2] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
OnEdge(p, a, b) == Cross(Sub(b, a), Sub(p, a)) = 0 /\ Dot(Sub(p, a), Sub(b, a)) >= 0 /\ Dot(Sub(p, b), Sub(a, b)) >= 0
LiesOn(sh, f, dx, dy, q, t, s) ==
    LET a == Scaled(EdgeA(sh, s), f)
        b == Scaled(EdgeB(sh, s), f)
        u == At(EdgeA(q, t), dx, dy)
        v == At(EdgeB(q, t), dx, dy)
    IN  OnEdge(u, a, b) /\ OnEdge(v, a, b) /\ Dot(Sub(v, u), Sub(b, a)) > 0
Carrier(sh, f, dx, dy, q, t) ==
    LET c == {s \in EdgesOn(sh) : LiesOn(sh, f, dx, dy, q, t, s)} IN IF c = {} THEN NONE ELSE CHOOSE s \in c : TRUE
CarrierTable == [f \in 1..MaxFactor |-> [sh \in Shapes |-> [dx \in 0..(f - 1) |-> [dy \in 0..(f - 1) |->
                    LET q == CellShape(sh, f, dx, dy) IN
                    IF q = NONE THEN << >> ELSE
                    [t \in EdgesOn(q) |->
                        LET s == Carrier(sh, f, dx, dy, q, t) IN
                        IF s = NONE THEN << NONE, FALSE, FALSE >>
                        ELSE << s, At(EdgeA(q, t), dx, dy) = Scaled(EdgeA(sh, s), f), At(EdgeB(q, t), dx, dy) = Scaled(EdgeB(sh, s), f) >>]]]]]
Trim(d, k0, k1) == << d[1], d[2], IF k0 THEN d[3] ELSE 0, IF k1 THEN d[4] ELSE 0, IF k0 THEN d[5] ELSE 0, IF k1 THEN d[6] ELSE 0,
                      d[7], d[8], IF k0 THEN d[9] ELSE 0, IF k1 THEN d[10] ELSE 0, IF k0 THEN d[11] ELSE 0, IF k1 THEN d[12] ELSE 0 >>
UpTile(t, f, dx, dy) ==         \* defined where CellShape is not NONE
    LET q == CellShape(t.sh, f, dx, dy)
        c == CarrierTable[f][t.sh][dx][dy]
    IN  [sh |-> q, e |-> [i \in 1..4 |-> IF i - 1 \notin EdgesOn(q) THEN Blank
                                         ELSE IF c[i - 1][1] = NONE THEN Blank ELSE Trim(t.e[c[i - 1][1] + 1], c[i - 1][2], c[i - 1][3])]]
Cells(f) == {<< dx, dy >> : dx, dy \in 0..(f - 1)}
UpCells(sh, f) == {c \in Cells(f) : CellShape(sh, f, c[1], c[2]) # NONE}
=============================================================================
