------------------------------ MODULE IdsTrace ------------------------------
(* Judges recorded histories of two levels.  ids-*: C12, map-*: C13.              *)
(* An event carries both levels as observed after the operation.                  *)
EXTENDS LevelIds, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st, rest, cap
(* st: the two levels; rest: tiles and everything else; cap[w]: bound on the next automatic id, or -1 *)
Clause(n, ok) == IF ok THEN {} ELSE {n}
SetOf(s) == {s[i] : i \in 1..Len(s)}
LevelOf(j) == [props |-> SetOf(j.props), bprops |-> SetOf(j.bprops), ents |-> SetOf(j.ents)]
RestOf(j) == [tiles |-> SetOf(j.tiles), misc |-> j.misc]
New == [tiles |-> {}, misc |-> 0]
NoCap == -1
Keys(ts) == {t.k : t \in ts}
MergeTiles(a, b) == {t \in a : t.k \notin Keys(b)} \cup b

FailsAdd(e, L, M) ==
    LET old == KindSet(L, e.k)
        auto == e.given = -1
        taken == e.given \in Ids(old)
        added == IF e.k = "e" THEN [id |-> e.ret, tok |-> e.tok, refs |-> e.refs] ELSE [id |-> e.ret, tok |-> e.tok]
    IN  IF ~auto /\ taken THEN Clause("ids-explicit-refused", e.out = "LevelException") \cup Clause("ids-refused-unchanged", M = L)
        ELSE IF e.out # "ok" THEN {IF auto THEN "ids-auto-fails" ELSE "ids-explicit-fails"}
        ELSE Clause("ids-auto", auto => AutoIdOk(L, e.ret))
             \cup Clause("ids-auto-bound", (auto /\ cap[e.w] # NoCap) => e.ret <= cap[e.w])
             \cup Clause("ids-explicit", auto \/ e.ret = e.given)
             \cup Clause("ids-added", M = WithKind(L, e.k, old \cup {added}))
FailsRemap(e, L, M) ==
    IF e.out # "ok" THEN {"map-remap-outcome"}
    ELSE IF ~RemapRenames(L, M) THEN {"map-remap-objects"}
    ELSE Clause("map-remap-ids", RemapIds(L, M, e.min)) \cup Clause("map-remap-refs", RemapRefs(L, M))
FailsMax(e, L, M) ==
    IF e.out # "ok" THEN {"ids-max-outcome"} ELSE Clause("ids-max", MaxIdOk(L, e.ret)) \cup Clause("ids-max-unchanged", M = L)
FailsMerge(e, L, O, M) ==
    IF e.out # "ok" THEN {"map-merge-outcome"}
    ELSE (IF e.remap
          THEN IF ~MergeUnion(L, O, M) THEN {"map-merge-objects"} ELSE Clause("map-merge-ids", MergeDistinct(L, O, M)) \cup Clause("map-merge-refs", MergeRefs(L, O, M))
          ELSE Clause("map-merge-plain", M = PlainMerge(L, O)))
         \cup Clause("map-merge-tiles", SetOf(e.lv[1].tiles) = MergeTiles(rest[1].tiles, rest[2].tiles))
         \cup Clause("map-merge-misc", e.lv[1].misc = rest[1].misc)
         \cup Clause("map-merge-other", LevelOf(e.oafter) = O /\ RestOf(e.oafter) = rest[2])
         \cup Clause("map-merge-independent", LevelOf(e.omut) = O /\ RestOf(e.omut) = rest[2])
Others(e, w) ==     \* the level that was not operated on, and tiles and variables of both
    Clause("map-rest", \A v \in 1..2 : RestOf(e.lv[v]) = rest[v])
    \cup Clause("map-other-level", LevelOf(e.lv[3 - w]) = st[3 - w])
Fails(e) ==
    CASE e.op = "new" -> {}
      [] e.op = "tiles" -> {}
      [] e.op = "add" -> FailsAdd(e, st[e.w], LevelOf(e.lv[e.w])) \cup Others(e, e.w)
      [] e.op = "del" -> {}
      [] e.op = "remap" -> FailsRemap(e, st[e.w], LevelOf(e.lv[e.w])) \cup Others(e, e.w)
      [] e.op = "maxid" -> FailsMax(e, st[e.w], LevelOf(e.lv[e.w])) \cup Others(e, e.w)
      [] e.op = "reload" -> IF e.out # "ok" THEN {"ids-reload-outcome"} ELSE Clause("ids-reload", LevelOf(e.lv[e.w]) = st[e.w])
      [] e.op = "merge" -> FailsMerge(e, st[1], st[2], LevelOf(e.lv[1]))
TInit == l = 1 /\ st = << Empty, Empty >> /\ rest = << New, New >> /\ cap = << NoCap, NoCap >>
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
                /\ st' = << LevelOf(e.lv[1]), LevelOf(e.lv[2]) >>
                /\ rest' = << RestOf(e.lv[1]), RestOf(e.lv[2]) >>
                /\ cap' = IF e.op = "maxid" /\ e.out = "ok" THEN [cap EXCEPT ![e.w] = e.ret + 1] ELSE << NoCap, NoCap >>
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, st, rest, cap >>
=============================================================================
