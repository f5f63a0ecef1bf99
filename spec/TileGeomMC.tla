----------------------------- MODULE TileGeomMC -----------------------------
(* Every tile shape under words in the symmetries, then enlarged.                *)
EXTENDS TileGeom, Json
CONSTANTS DEPTH, Mutate
VARIABLES t, g, sh0, w
vars == << t, g, sh0, w >>
Label(s) == << 1, s % 2, 1, 0, 10 + s, 20 + s, s + 1, s % 2, 0, 1, 30 + s, 40 + s >>      \* distinct data on every side
Tile0(sh) == [sh |-> sh, e |-> [i \in 1..4 |-> IF i - 1 \in EdgesOn(sh) THEN Label(i - 1) ELSE Blank]]
Init == sh0 \in Shapes /\ t = Tile0(sh0) /\ g = << 1, 0, 0, 1 >> /\ w = << >>
BadTx(x, h) == IF Mutate /\ SymDet(h) < 0 THEN [x EXCEPT !.sh = ShapeImage(x.sh, h), !.e = TxTile([x EXCEPT !.e = [i \in 1..4 |-> Mirror(x.e[i])]], h).e] ELSE TxTile(x, h)
Next == Len(w) < DEPTH /\ \E h \in Sym : t' = BadTx(t, h) /\ g' = SymMul(h, g) /\ w' = Append(w, h) /\ sh0' = sh0
Spec == Init /\ [][Next]_vars
(* applying one after another = applying the product *)
Composition == SameTile(t, TxTile(Tile0(sh0), g))
Undone == SameTile(TxTile(TxTile(Tile0(sh0), g), SymInv(g)), Tile0(sh0))
EdgesKept == Cardinality(EdgesOn(t.sh)) = Cardinality(EdgesOn(sh0)) /\ Area2(t.sh) = Area2(sh0)
Emit == IF Len(w) <= DEPTH THEN PrintT("J " \o ToJson([sh |-> sh0, w |-> w])) ELSE TRUE
=============================================================================
