----------------------------- MODULE LevelTxTrace -----------------------------
(* Judges recorded level transforms (C16), upscales (C17) and runs of the        *)
(* transform command (C26).                                                      *)
EXTENDS LevelTx, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
Range(s) == {s[i] : i \in 1..Len(s)}
AsMap(kv) == [k \in {kv[i].k : i \in 1..Len(kv)} |-> kv[CHOOSE i \in 1..Len(kv) : kv[i].k = k].v]
HF == << -1, 0, 0, 1 >>
VF == << 1, 0, 0, -1 >>
MatOf(e) ==
    CASE e.op = "hflip" -> [MIdent EXCEPT !.g = HF]
      [] e.op = "vflip" -> [MIdent EXCEPT !.g = VF]
      [] e.op = "rotate" -> [MIdent EXCEPT !.g = Quarter(e.n % 4)]
      (* saved and loaded again: nothing has moved *)
      [] e.op = "reload" -> MIdent
      [] e.op = "translate" -> [MIdent EXCEPT !.x = e.x, !.y = e.y]
      [] e.op = "transform" -> [k |-> 1, g |-> e.g, x |-> e.x, y |-> e.y]
      [] e.op = "upscale" -> [k |-> e.f, g |-> e.g, x |-> e.f * e.x, y |-> e.f * e.y]
      (* enlarged, turned clockwise, flipped, then shifted *)
      [] e.op = "cli" -> [k |-> IF e.up > 1 THEN e.up ELSE 1,
                          g |-> SymMul(IF e.hf THEN HF ELSE MIdent.g, SymMul(IF e.vf THEN VF ELSE MIdent.g, Quarter(e.n % 4))), x |-> e.x, y |-> e.y]
GoodTiles(ts) == \A i \in 1..Len(ts) : ts[i].sh \in Shapes /\ Len(ts[i].e) = 4
StartKeys == {"p1_x", "p1_y", "p2_x", "p2_y", "p3_x", "p3_y", "p4_x", "p4_y"}
Coord(V, k) == IF k \in DOMAIN V THEN V[k].n ELSE 0
Players == << << "p1_x", "p1_y" >>, << "p2_x", "p2_y" >>, << "p3_x", "p3_y" >>, << "p4_x", "p4_y" >> >>
StartsMoved(V, M, W) == \A i \in 1..4 :
    /\ \A k \in Range(Players[i]) : k \in DOMAIN W => W[k].t = 2
    /\ StartMoved(<< Coord(V, Players[i][1]), Coord(V, Players[i][2]) >>, M, << Coord(W, Players[i][1]), Coord(W, Players[i][2]) >>)
Rest(V, S) == [k \in (DOMAIN V) \ S |-> V[k]]
LevelType(V) == IF "level_type" \in DOMAIN V THEN V["level_type"] ELSE IntV(0)
DUSTMOD == 6
EntVars(e) == [id |-> e.id, vars |-> Filled(e.nm, AsMap(e.vars))]
EntVarsMoved(e, M) == [id |-> e.id, vars |-> VarsImage(e.nm, AsMap(e.vars), M)]
EntDrawn(e) == [id |-> e.id, d |-> Drawn(e)]
EntDrawnMoved(e, M) == [id |-> e.id, d |-> DrawnImage(M.g, Drawn(e))]
(* rotations stay what a file can hold *)
Turned(S) == \A x \in S : x.rot \in 0..65535
FailsMove(e) ==
    LET M == MatOf(e)
        B == e.before
        A == e.after
        V == AsMap(B.vars)
        W == AsMap(A.vars)
        typed == IF e.op = "cli" THEN {"level_type"} ELSE {}
    IN
    IF ~ (M.g \in Sym /\ GoodTiles(B.tiles) /\ GoodTiles(B.btiles)) THEN {"harness-level"}
    ELSE IF e.out # "ok" THEN {"move-outcome"}
    ELSE IF ~ (GoodTiles(A.tiles) /\ GoodTiles(A.btiles)) THEN {"move-tiles-malformed"}
    ELSE Clause("move-tiles", TilesMoved(Range(B.tiles), M, Range(A.tiles)))
         \cup Clause("move-backdrop-tiles", TilesMoved(Range(B.btiles), M, Range(A.btiles)))
         \cup Clause("move-props", {PropImage(p, M) : p \in Range(B.props)} = {PropSeen(p) : p \in Range(A.props)})
         \cup Clause("move-backdrop-props", {PropImage(p, M) : p \in Range(B.bprops)} = {PropSeen(p) : p \in Range(A.bprops)})
         \cup Clause("move-rotations", Turned(Range(A.props)) /\ Turned(Range(A.bprops)) /\ Turned(Range(A.ents)))
         \cup Clause("move-entities", {EntPlace(x, M) : x \in Range(B.ents)} = {EntSeen(x) : x \in Range(A.ents)})
         \cup Clause("move-entities-turned", {EntDrawnMoved(x, M) : x \in Range(B.ents)} = {EntDrawn(x) : x \in Range(A.ents)})
         \cup Clause("move-entities-owned", {EntVarsMoved(x, M) : x \in Range(B.ents)} = {EntVars(x) : x \in Range(A.ents)})
         \cup Clause("move-entities-rest", {EntRest(x) : x \in Range(B.ents)} = {EntRest(x) : x \in Range(A.ents)})
         \cup Clause("move-starts", StartsMoved(V, M, W))
         \cup Clause("move-variables", Rest(V, StartKeys \cup typed) = Rest(W, StartKeys \cup typed))
         \cup Clause("move-level-type", e.op = "cli" => LevelType(W) = IF M.k > 1 /\ LevelType(V) = IntV(0) THEN IntV(DUSTMOD) ELSE LevelType(V))
         \cup Clause("move-thumbnail", A.sshot = B.sshot)
         \cup Clause("cli-input-kept", e.op = "cli" => e.kept)
         \cup Clause("cli-output-whole", e.op = "cli" => e.size = e.len)
(* a command that cannot be completed: it fails and neither file has changed *)
FailsRefused(e) ==
    IF ~e.made THEN {"harness-level"}
    ELSE Clause("cli-fails", e.out = "refused") \cup Clause("cli-untouched", \A i \in 1..2 : e.kept[i])
Fails(e) == IF e.op = "clifail" THEN FailsRefused(e) ELSE FailsMove(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
