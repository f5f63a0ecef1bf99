----------------------------- MODULE TileUpTrace -----------------------------
(* Judges recorded Tile.upscale results (C17).                                   *)
EXTENDS TileUp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
SameLook(t, u) == t.ss = u.ss /\ t.sp = u.sp /\ t.st = u.st /\ t.fl = u.fl
(* out: sequence of [dx, dy, t] *)
FailsUp(e) ==
    LET at(i) == << e.res[i].dx, e.res[i].dy >>
        n == Len(e.res)
        cells == {at(i) : i \in 1..n}
        inside(i) == at(i) \in UpCells(e.t.sh, e.f)
    IN
    IF e.out # "ok" THEN {"up-outcome"}
    ELSE Clause("up-cells", cells = UpCells(e.t.sh, e.f) /\ Cardinality(cells) = n)
         \cup Clause("up-outline", \A i \in 1..n : inside(i) => e.res[i].t.sh = CellShape(e.t.sh, e.f, at(i)[1], at(i)[2]))
         \cup Clause("up-edges", \A i \in 1..n : (inside(i) /\ e.res[i].t.sh = CellShape(e.t.sh, e.f, at(i)[1], at(i)[2]))
                                     => SameTile(e.res[i].t, UpTile(e.t, e.f, at(i)[1], at(i)[2])))
         \cup Clause("up-look", \A i \in 1..n : SameLook(e.t, e.res[i].t))
         \cup Clause("up-original-kept", e.t2 = e.t)
         \cup Clause("up-independent", ~ e.alias)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == FailsUp(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
