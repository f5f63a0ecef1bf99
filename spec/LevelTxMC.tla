------------------------------ MODULE LevelTxMC ------------------------------
(* Small levels under words of isometries and enlargements: nothing is merged,   *)
(* everything moves together, inverses restore.                                  *)
EXTENDS LevelTx, Json
CONSTANTS DEPTH, SHAPES, SHIFTS, FACTORS, Mutate      \* SHIFTS: cells, shifted by 2
VARIABLES lev, m, w
vars == << lev, m, w >>
E0(s) == << 1, s % 2, 1, 0, 10 + s, 20 + s, s + 1, s % 2, 0, 1, 30 + s, 40 + s >>
T(x, y, sh) == [l |-> 19, x |-> x, y |-> y, sh |-> sh, fl |-> 4, ss |-> 1, sp |-> 0, st |-> 1, e |-> [i \in 1..4 |-> IF i - 1 \in EdgesOn(sh) THEN E0(i - 1) ELSE Blank]]
Start(sh) == [tiles |-> {T(0, 0, sh), T(1, 0, 0), T(0, 1, sh)}, mark |-> << 528, 96 >>, o |-> [a |-> 1000, m |-> 0]]
Init == \E sh \in SHAPES : lev = << sh, Start(sh) >> /\ m = MIdent /\ w = << >>
Mats == {[k |-> k, g |-> g, x |-> TILE * (a - 2), y |-> TILE * (b - 2)] : k \in FACTORS, g \in Sym, a, b \in SHIFTS}
Img2(S, M) == IF Mutate /\ M.k = 1       \* the image of the top left corner taken for the cell
              THEN {[CHOOSE p \in Pieces(t, M, M.x \div TILE, M.y \div TILE) : TRUE EXCEPT !.x = ImgLin(M, << t.x, t.y >>)[1] + M.x \div TILE, !.y = ImgLin(M, << t.x, t.y >>)[2] + M.y \div TILE] : t \in S}
              ELSE TilesImage(S, M, M.x \div TILE, M.y \div TILE)
Move(L, M) == [tiles |-> Img2(L.tiles, M), mark |-> Img(M, L.mark), o |-> DrawnImage(M.g, L.o)]
Next == Len(w) < DEPTH /\ \E M \in Mats : lev' = << lev[1], Move(lev[2], M) >> /\ m' = After(M, m) /\ w' = Append(w, M)
Spec == Init /\ [][Next]_vars
L0 == Start(lev[1])
L == lev[2]
Canon(S) == {CanonTile(t) : t \in S}
RECURSIVE SumArea(_)
SumArea(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Area2(t.sh) + SumArea(S \ {t})
(* nothing lost or merged *)
CellsDistinct == \A a, b \in L.tiles : (a.l = b.l /\ a.x = b.x /\ a.y = b.y) => a = b
AreaKept == SumArea(L.tiles) = m.k * m.k * SumArea(L0.tiles)
(* one map for everything: the mark stays on the same tile of solid ground *)
Covers(S, p) == \E t \in S : t.x = p[1] \div TILE /\ t.y = p[2] \div TILE
MarkCarried == Covers(L.tiles, L.mark)
Composed == Canon(L.tiles) = Canon(Move(L0, m).tiles) /\ L.mark = Img(m, L0.mark) /\ L.o = DrawnImage(m.g, L0.o)
InvOf(M) == LET h == SymInv(M.g) IN [k |-> 1, g |-> h, x |-> -(h[1] * M.x + h[2] * M.y), y |-> -(h[3] * M.x + h[4] * M.y)]
Restored == m.k = 1 => LET B == Move(L, InvOf(m)) IN Canon(B.tiles) = Canon(L0.tiles) /\ B.mark = L0.mark /\ B.o = L0.o
Emit == IF Len(w) = DEPTH THEN PrintT("J " \o ToJson([sh |-> lev[1], w |-> w])) ELSE TRUE
=============================================================================
