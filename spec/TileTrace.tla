------------------------------ MODULE TileTrace ------------------------------
(* Judges recorded tile transforms (C15).  Tiles as in TileData: sh, fl, ss, sp, *)
(* st, e; edges the shape does not have are not looked at.                       *)
EXTENDS TileGeom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
SameLook(t, u) == t.ss = u.ss /\ t.sp = u.sp /\ t.st = u.st /\ t.fl = u.fl
Good(t) == t.sh \in Shapes /\ Len(t.e) = 4
RECURSIVE Product(_, _)
Product(gs, i) == IF i > Len(gs) THEN << 1, 0, 0, 1 >> ELSE SymMul(Product(gs, i + 1), gs[i])
(* gs: linear parts applied in turn; ts: the tile after each; alias: edge objects shared *)
FailsSeq(e) ==
    LET n == Len(e.gs)
        at(i) == IF i = 0 THEN e.t0 ELSE e.ts[i]
        step(i) == TxTile(at(i - 1), e.gs[i])
    IN
    IF ~ (Good(e.t0) /\ \A i \in 1..n : e.gs[i] \in Sym) THEN {"harness-tile"}
    ELSE IF e.out # "ok" \/ Len(e.ts) # n THEN {"tile-outcome"}
    ELSE IF \E i \in 1..n : ~ Good(e.ts[i]) THEN {"tile-malformed"}
    ELSE Clause("tile-outline", \A i \in 1..n : e.ts[i].sh = step(i).sh)
         \cup Clause("tile-edges", \A i \in 1..n : e.ts[i].sh = step(i).sh => SameTile(e.ts[i], step(i)))
         \cup Clause("tile-look", \A i \in 1..n : SameLook(e.t0, e.ts[i]))
         \cup Clause("tile-composition", n = 0 \/ SameTile(at(n), TxTile(e.t0, Product(e.gs, 1))))
         \cup Clause("tile-edges-independent", ~ e.alias)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == FailsSeq(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
