------------------------------ MODULE EdgeRules ------------------------------
(* Which edges of a tiling are solid and visible, and how visible edges of the   *)
(* same side run into each other.  A tiling T maps cells << layer, x, y >> to    *)
(* tiles [sh, look, e].                                                          *)
EXTENDS TileGeom
Flush(sh, s) == HasEdge(sh, s) /\ (EdgeA(sh, s)[1] = EdgeB(sh, s)[1] \/ EdgeA(sh, s)[2] = EdgeB(sh, s)[2])
Border(s, p) == CASE s = 0 -> p[2] = 0 [] s = 1 -> p[2] = 2 [] s = 2 -> p[1] = 0 [] s = 3 -> p[1] = 2
ASSUME \A sh \in Shapes : \A s \in 0..3 : Flush(sh, s) => Border(s, EdgeA(sh, s)) /\ Border(s, EdgeB(sh, s)) /\ Manhattan(EdgeA(sh, s), EdgeB(sh, s)) = 2
Opposite(s) == << 1, 0, 3, 2 >>[s + 1]
Towards(s) == << << 0, -1 >>, << 0, 1 >>, << -1, 0 >>, << 1, 0 >> >>[s + 1]
Beside(c, s) == << c[1], c[2] + Towards(s)[1], c[3] + Towards(s)[2] >>
(* flush against a flush neighbour: the edge the two tiles share *)
Shared(T, c, s) == Flush(T[c].sh, s) /\ Beside(c, s) \in DOMAIN T /\ Flush(T[Beside(c, s)].sh, Opposite(s))
(* the callback is asked about shared edges between different sprites only *)
Asked(T, c, s) == Shared(T, c, s) /\ T[c].look # T[Beside(c, s)].look
DefaultVisible(T, c, s) == s \in {1, 3}
(* ask(T, c, s): what the callback answers *)
VisEdge(T, c, s, Ask(_, _, _)) ==
    LET d == T[c].e[s + 1] IN
    IF ~ HasEdge(T[c].sh, s) THEN Blank
    ELSE IF ~ Shared(T, c, s) THEN [d EXCEPT ![1] = 1, ![2] = 1]
    ELSE [d EXCEPT ![1] = 0, ![2] = IF ~ Asked(T, c, s) THEN 0 ELSE IF Ask(T, c, s) THEN 1 ELSE 0]
VisTile(T, c, Ask(_, _, _)) == [T[c] EXCEPT !.e = [i \in 1..4 |-> VisEdge(T, c, i - 1, Ask)]]
Visibility(T, Ask(_, _, _)) == [c \in DOMAIN T |-> VisTile(T, c, Ask)]

(* ---- joins; angles in thousandths of a degree, clockwise ---- *)
RECURSIVE Ang(_, _)
Ang(dx, dy) == IF dx > 0 /\ dy >= 0 THEN (IF dy = 0 THEN 0 ELSE IF dy = dx THEN 45000 ELSE IF dx = 2 * dy THEN 26565 ELSE 63435)
               ELSE (Ang(dy, -dx) + 90000) % 360000
ASSUME Ang(0, 2) = 90000 /\ Ang(-2, 0) = 180000 /\ Ang(2, -2) = 315000 /\ Ang(-1, 2) = 116565
Turn(d, n) == ((Ang(n[1], n[2]) - Ang(d[1], d[2]) + 540000) % 360000) - 180000
HalfTurn(t) == IF t < 0 THEN -((-t) \div 2000) ELSE t \div 2000
(* corner 0 is where an edge starts when walked clockwise, i.e. where it ends walked the other way *)
From(sh, s, k) == IF k = 0 THEN EdgeB(sh, s) ELSE EdgeA(sh, s)
To(sh, s, k) == IF k = 0 THEN EdgeA(sh, s) ELSE EdgeB(sh, s)
Off(p, d) == << p[1] + 2 * d[1], p[2] + 2 * d[2] >>
Minus(a, b) == << a[1] - b[1], a[2] - b[2] >>
At2(c, d) == << c[1], c[2] + d[1], c[3] + d[2] >>
Around8 == {<< dx, dy >> : dx, dy \in {-1, 0, 1}} \ {<< 0, 0 >>}
Seen(t, s) == HasEdge(t.sh, s) /\ t.e[s + 1][2] = 1
AtCorner(p) == p[1] # 1 /\ p[2] # 1
Joiners(T, c, s, k) ==
    {d \in Around8 :
        /\ At2(c, d) \in DOMAIN T
        /\ LET n == T[At2(c, d)] IN n.look = T[c].look /\ Seen(n, s) /\ Off(From(n.sh, s, k), d) = To(T[c].sh, s, k)}
TurnTo(T, c, s, k, d) ==
    LET n == T[At2(c, d)] IN Turn(Minus(To(T[c].sh, s, k), From(T[c].sh, s, k)), Minus(To(n.sh, s, k), From(n.sh, s, k)))
(* walking clockwise the tile is on the right: away is the most counter-clockwise, and the other way round *)
Joiner(T, c, s, k) == LET J == Joiners(T, c, s, k) IN
    CHOOSE d \in J : \A o \in J : IF k = 1 THEN TurnTo(T, c, s, k, d) <= TurnTo(T, c, s, k, o) ELSE TurnTo(T, c, s, k, d) >= TurnTo(T, c, s, k, o)
(* << cap, angle, filth cap, filth angle >> of one corner of a visible edge *)
CornerData(T, c, s, k) ==
    LET d == T[c].e[s + 1]
        dirty == d[7] # 0
    IN  IF ~ AtCorner(To(T[c].sh, s, k)) THEN << 0, 0, 0, 0 >>
        ELSE IF Joiners(T, c, s, k) = {} THEN << 1, 0, IF dirty THEN 1 ELSE 0, 0 >>
        ELSE LET j == Joiner(T, c, s, k)
                 n == T[At2(c, j)].e[s + 1]
                 a == HalfTurn(TurnTo(T, c, s, k, j))
                 same == d[7] = n[7] /\ d[8] = n[8]
             IN  << 0, a, IF dirty /\ ~ same THEN 1 ELSE 0, IF dirty /\ same THEN a ELSE 0 >>
CapEdge(T, c, s) ==
    LET d == T[c].e[s + 1] IN
    IF ~ HasEdge(T[c].sh, s) \/ d[2] = 0 THEN << d[1], d[2], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
    ELSE LET p == CornerData(T, c, s, 0)
             q == CornerData(T, c, s, 1)
         IN  << d[1], d[2], p[1], q[1], p[2], q[2], d[7], d[8], p[3], q[3], p[4], q[4] >>
CapTile(T, c) == [T[c] EXCEPT !.e = [i \in 1..4 |-> CapEdge(T, c, i - 1)]]
Caps(T) == [c \in DOMAIN T |-> CapTile(T, c)]
(* the tiling seen in a mirror *)
MirrorCell(g, c) == << c[1], IF g[1] < 0 THEN -c[2] ELSE c[2], IF g[4] < 0 THEN -c[3] ELSE c[3] >>
MirrorTiling(T, g) == [c \in {MirrorCell(g, x) : x \in DOMAIN T} |-> [TxTile(T[MirrorCell(g, c)], g) EXCEPT !.sh = @] @@ [look |-> T[MirrorCell(g, c)].look]]
SameTiling(T, U) == DOMAIN T = DOMAIN U /\ \A c \in DOMAIN T : T[c].look = U[c].look /\ SameTile(T[c], U[c])
=============================================================================
