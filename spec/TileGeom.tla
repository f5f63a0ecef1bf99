------------------------------ MODULE TileGeom ------------------------------
(* Tile outlines and their symmetries.  Coordinates in half tiles, y down.       *)
(* Sides: 0 top, 1 bottom, 2 left, 3 right; an edge runs clockwise around the    *)
(* tile.  Edge data as in TileData:                                              *)
(*   << solid, visible, cap0, cap1, angle0, angle1, set, spike, fcap0, fcap1, fangle0, fangle1 >> *)
EXTENDS TxAlg, FiniteSets, TLC
Shapes == 0..20
Outline == <<                  \* Outline[shape + 1]: top-left, top-right, bottom-right, bottom-left
    << <<0,0>>, <<2,0>>, <<2,2>>, <<0,2>> >>,
    << <<0,0>>, <<2,1>>, <<2,2>>, <<0,2>> >>, << <<0,1>>, <<2,2>>, <<2,2>>, <<0,2>> >>,
    << <<0,0>>, <<2,0>>, <<1,2>>, <<0,2>> >>, << <<0,0>>, <<1,0>>, <<0,2>>, <<0,2>> >>,
    << <<0,0>>, <<2,0>>, <<2,2>>, <<0,1>> >>, << <<0,0>>, <<2,0>>, <<2,1>>, <<0,0>> >>,
    << <<1,0>>, <<2,0>>, <<2,2>>, <<0,2>> >>, << <<2,0>>, <<2,0>>, <<2,2>>, <<1,2>> >>,
    << <<0,1>>, <<2,0>>, <<2,2>>, <<0,2>> >>, << <<0,2>>, <<2,1>>, <<2,2>>, <<0,2>> >>,
    << <<0,0>>, <<2,0>>, <<2,2>>, <<1,2>> >>, << <<1,0>>, <<2,0>>, <<2,2>>, <<2,2>> >>,
    << <<0,0>>, <<2,0>>, <<2,1>>, <<0,2>> >>, << <<0,0>>, <<2,0>>, <<2,0>>, <<0,1>> >>,
    << <<0,0>>, <<1,0>>, <<2,2>>, <<0,2>> >>, << <<0,0>>, <<0,0>>, <<1,2>>, <<0,2>> >>,
    << <<0,0>>, <<2,2>>, <<2,2>>, <<0,2>> >>, << <<0,0>>, <<2,0>>, <<2,0>>, <<0,2>> >>,
    << <<0,0>>, <<2,0>>, <<2,2>>, <<0,0>> >>, << <<0,2>>, <<2,0>>, <<2,2>>, <<0,2>> >> >>
CwIndex == << 0, 2, 3, 1 >>
Vert(sh, i) == Outline[sh + 1][(i % 4) + 1]
EdgeA(sh, s) == Vert(sh, CwIndex[s + 1])
EdgeB(sh, s) == Vert(sh, CwIndex[s + 1] + 1)
AbsZ(x) == IF x < 0 THEN -x ELSE x
Manhattan(a, b) == AbsZ(a[1] - b[1]) + AbsZ(a[2] - b[2])
HasEdge(sh, s) == Manhattan(EdgeA(sh, s), EdgeB(sh, s)) > 1
EdgesOn(sh) == {s \in 0..3 : HasEdge(sh, s)}
Corners(sh) == {Vert(sh, i) : i \in 0..3}
ASSUME \A a, b \in Shapes : Corners(a) = Corners(b) => a = b
(* twice the area, by the shoelace formula (clockwise outlines count positive) *)
Cross(a, b) == a[1] * b[2] - b[1] * a[2]
Area2(sh) == Cross(Vert(sh, 0), Vert(sh, 1)) + Cross(Vert(sh, 1), Vert(sh, 2)) + Cross(Vert(sh, 2), Vert(sh, 3)) + Cross(Vert(sh, 3), Vert(sh, 0))
ASSUME \A a \in Shapes : Area2(a) > 0

Blank == << 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
Mirror(d) == << d[1], d[2], d[4], d[3], -d[6], -d[5], d[7], d[8], d[10], d[9], -d[12], -d[11] >>

(* ---- the eight symmetries of the square, as linear parts << a, b, c, d >> ---- *)
Sym == {<< 1, 0, 0, 1 >>, << 0, -1, 1, 0 >>, << -1, 0, 0, -1 >>, << 0, 1, -1, 0 >>,
        << -1, 0, 0, 1 >>, << 1, 0, 0, -1 >>, << 0, 1, 1, 0 >>, << 0, -1, -1, 0 >>}
SymMul(g, h) == << g[1] * h[1] + g[2] * h[3], g[1] * h[2] + g[2] * h[4], g[3] * h[1] + g[4] * h[3], g[3] * h[2] + g[4] * h[4] >>
SymDet(g) == g[1] * g[4] - g[2] * g[3]
SymInv(g) == CHOOSE h \in Sym : SymMul(g, h) = << 1, 0, 0, 1 >>
Around(g, p) == << g[1] * (p[1] - 1) + g[2] * (p[2] - 1) + 1, g[3] * (p[1] - 1) + g[4] * (p[2] - 1) + 1 >>
ShapeImage0(sh, g) == CHOOSE q \in Shapes : Corners(q) = {Around(g, c) : c \in Corners(sh)}
ShapeTable == [g \in Sym |-> [sh \in Shapes |-> ShapeImage0(sh, g)]]
ShapeImage(sh, g) == ShapeTable[g][sh]
(* where an edge goes: a reflection reverses its direction *)
SideImage0(sh, g, s) ==
    LET a == Around(g, EdgeA(sh, s))
        b == Around(g, EdgeB(sh, s))
        q == ShapeImage(sh, g)
        u == IF SymDet(g) > 0 THEN a ELSE b
        v == IF SymDet(g) > 0 THEN b ELSE a
    IN  CHOOSE t \in EdgesOn(q) : EdgeA(q, t) = u /\ EdgeB(q, t) = v
SideTable == [g \in Sym |-> [sh \in Shapes |-> [s \in EdgesOn(sh) |-> SideImage0(sh, g, s)]]]
SideImage(sh, g, s) == SideTable[g][sh][s]
DataImage(g, d) == IF SymDet(g) > 0 THEN d ELSE Mirror(d)
(* tile = [sh, e] with e a sequence of four edges; edges the shape does not have are irrelevant *)
SameTile(t, u) == t.sh = u.sh /\ \A s \in EdgesOn(t.sh) : t.e[s + 1] = u.e[s + 1]
TxTile(t, g) ==
    LET q == ShapeImage(t.sh, g)
        src(t2) == {s \in EdgesOn(t.sh) : SideImage(t.sh, g, s) = t2}
    IN  [sh |-> q, e |-> [i \in 1..4 |-> IF i - 1 \in EdgesOn(q) THEN DataImage(g, t.e[(CHOOSE s \in src(i - 1) : TRUE) + 1]) ELSE Blank]]
=============================================================================
