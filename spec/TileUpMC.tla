------------------------------ MODULE TileUpMC ------------------------------
(* Every tile shape under a symmetry, then enlarged by every factor.             *)
EXTENDS TileUp
CONSTANTS DEPTH, MutateTrim
VARIABLES t, w
vars == << t, w >>
Label(s) == << 1, s % 2, 1, 0, 10 + s, 20 + s, s + 1, s % 2, 0, 1, 30 + s, 40 + s >>
Tile0(sh) == [sh |-> sh, e |-> [i \in 1..4 |-> IF i - 1 \in EdgesOn(sh) THEN Label(i - 1) ELSE Blank]]
Init == (\E sh0 \in Shapes : t = Tile0(sh0)) /\ w = 0
Next == w < DEPTH /\ \E h \in Sym : t' = TxTile(t, h) /\ w' = w + 1
Spec == Init /\ [][Next]_vars
MAXF == MaxFactor
Up(x, f, dx, dy) == IF MutateTrim /\ dx # 0 THEN [UpTile(x, f, dx, dy) EXCEPT !.e[1] = x.e[1]] ELSE UpTile(x, f, dx, dy)
(* the pieces of the enlarged tile have its area, and enlarging commutes with symmetries *)
RECURSIVE SumArea(_, _)
SumArea(S, sh) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Area2(CellShape(sh[1], sh[2], c[1], c[2])) + SumArea(S \ {c}, sh)
AreaScales == \A f \in 1..MAXF : SumArea(UpCells(t.sh, f), << t.sh, f >>) = f * f * Area2(t.sh)
CellImage(h, f, c) == << (h[1] * (2 * c[1] - f + 1) + h[2] * (2 * c[2] - f + 1) + f - 1) \div 2,
                         (h[3] * (2 * c[1] - f + 1) + h[4] * (2 * c[2] - f + 1) + f - 1) \div 2 >>
UpCommutes == \A f \in 1..MAXF : \A h \in Sym :
    /\ UpCells(ShapeImage(t.sh, h), f) = {CellImage(h, f, c) : c \in UpCells(t.sh, f)}
    /\ \A c \in UpCells(t.sh, f) : LET ci == CellImage(h, f, c) IN
          SameTile(Up(TxTile(t, h), f, ci[1], ci[2]), TxTile(Up(t, f, c[1], c[2]), h))
(* the start corner of every original edge is carried by exactly one sub-tile edge, and so is its end *)
StartsAt(f, s) == {x \in {<< c, k >> : c \in UpCells(t.sh, f), k \in 0..3} :
    LET q == CellShape(t.sh, f, x[1][1], x[1][2]) IN
    x[2] \in EdgesOn(q) /\ LET r == CarrierTable[f][t.sh][x[1][1]][x[1][2]][x[2]] IN r[1] = s /\ r[2]}
EndsAt(f, s) == {x \in {<< c, k >> : c \in UpCells(t.sh, f), k \in 0..3} :
    LET q == CellShape(t.sh, f, x[1][1], x[1][2]) IN
    x[2] \in EdgesOn(q) /\ LET r == CarrierTable[f][t.sh][x[1][1]][x[1][2]][x[2]] IN r[1] = s /\ r[3]}
CornersOnce == \A f \in 1..MAXF : \A s \in EdgesOn(t.sh) : Cardinality(StartsAt(f, s)) = 1 /\ Cardinality(EndsAt(f, s)) = 1
=============================================================================
