---------------------------- MODULE TileQueryTrace ----------------------------
(* Judges histories of queries and sprite changes on real tiles.               *)
EXTENDS TileQuery, Json, IOUtils
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Fails(e) ==
    LET t == e.t0 IN
    CASE e.op = "filth" -> Clause("has-filth", e.ok /\ e.b = HasFilth(t)) \cup Clause("query-pure", e.t1 = t)
      [] e.op = "isblock" -> Clause("is-dustblock", e.ok /\ e.b = IsDustblock(t)) \cup Clause("query-pure", e.t1 = t)
      [] e.op = "path" -> Clause("path", e.ok /\ e.s = Path(t)) \cup Clause("query-pure", e.t1 = t)
      [] e.op = "sprite" -> Clause("sprite", e.ok /\ e.sp = Sprite(t)) \cup Clause("query-pure", e.t1 = t)
      [] e.op = "setsprite" -> Clause("set-sprite", e.ok /\ e.t1 = WithSprite(t, e.sp))
      [] e.op = "block" -> IF CanDustblock(t) THEN Clause("set-dustblock", e.ok /\ e.t1 = AsDustblock(t))
                           ELSE Clause("block-refused", ~e.ok /\ e.err = "value") \cup Clause("block-kept", e.t1 = t)
      [] e.op = "blank" -> Clause("new-tile", e.ok /\ e.t1 = [t EXCEPT !.e = [s \in 1..4 |-> [i \in 1..12 |-> 0]]])
      [] OTHER -> {"harness-op"}
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
