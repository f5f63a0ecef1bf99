---------------------------- MODULE ReplayTrace ----------------------------
(* Judges recorded writes and reads of replays.  rp-*: C09, fmt-*: C10.         *)
EXTENDS Replay, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
SetOf(s) == {s[i] : i \in 1..Len(s)}
NormPlayer(p, ver) == [ch |-> p.ch, st |-> [i \in 1..NumIntents(ver) |-> IF i <= Len(p.st) THEN Norm(p.st[i], IntentNeutral[i]) ELSE << >>]]
NormPlayers(ps, ver) == [k \in 1..Len(ps) |-> NormPlayer(ps[k], ver)]
Same(pre, r, a) ==
    Clause(pre \o "-version", r.ver = a.ver) \cup Clause(pre \o "-user", r.user = a.user) \cup Clause(pre \o "-level", r.level = a.level)
    \cup Clause(pre \o "-frames", r.frames = a.frames)
    \cup Clause(pre \o "-characters", [k \in 1..Len(r.players) |-> r.players[k].ch] = [k \in 1..Len(a.players) |-> a.players[k].ch])
    \cup Clause(pre \o "-intents", r.ver = a.ver => NormPlayers(r.players, a.ver) = NormPlayers(a.players, a.ver))
    \cup Clause(pre \o "-entities", Len(r.ents) = Len(a.ents) /\ SetOf(r.ents) = SetOf(a.ents))
(* what get_intent_value says, frame by frame (as runs, beyond the end too) *)
Gets(pre, e, a) == Clause(pre \o "-intent-value", \A k \in 1..Len(e.gets) : \A i \in 1..NumIntents(a.ver) :
                      Norm(e.gets[k][i], IntentNeutral[i]) = Norm(a.players[k].st[i], IntentNeutral[i]))
(* the documented special ids: the player entity 2p, its camera 1 + 2p *)
EntData(a, uid) == LET m == {i \in 1..Len(a.ents) : a.ents[i].uid = uid} IN IF m = {} THEN << >> ELSE << a.ents[CHOOSE i \in m : TRUE].fr >>
Looks(pre, e, a) == Clause(pre \o "-player-entity", \A i \in 1..Len(e.looks.who) : LET w == e.looks.who[i] IN w.body = EntData(a, 2 * w.p) /\ w.cam = EntData(a, 1 + 2 * w.p))
                    \cup Clause(pre \o "-no-such-frame", \A k \in 1..Len(e.looks.out) : \A f \in 1..Len(e.looks.out[k]) : e.looks.out[k][f] = IntentNeutral)

FailsRt(e) ==
    IF e.a.ver \notin Versions \/ (e.a.ver = 1 /\ Len(e.a.players) # 1)
    THEN Clause("fmt-write-refused", e.out = "LevelParseException")
    ELSE IF e.out # "ok" THEN {"rp-write-outcome", "fmt-write-outcome"}
    ELSE (IF e.rout # "ok" THEN {"rp-read-outcome"} ELSE Same("rp", e.r, e.a) \cup Gets("rp", e, e.a) \cup Looks("rp", e, e.a))
         \cup Clause("rp-source-changed", e.a2 = e.a)
         \cup (IF ~e.fmt THEN {}
               ELSE LET d == DecReplay(e.bytes, e.blobs) IN
                    IF ~d.ok THEN {"fmt-malformed"}
                    ELSE Same("fmt", d.r, e.a) \cup Clause("fmt-named", d.r.named = e.named)
                         \cup Clause("fmt-end", d.end = Len(e.bytes)) \cup Clause("fmt-stream-length", d.tight))
(* lookups in a replay that was changed *)
FailsLook(e) == IF e.out # "ok" THEN {"rp-look-outcome"} ELSE Gets("rp", e, e.a) \cup Looks("rp", e, e.a)
FailsDec(e) ==
    LET d == DecReplay(e.bytes, e.blobs) IN
    IF ~d.ok THEN {"harness-bad-file"}
    ELSE (IF e.rout # "ok" THEN {"fmt-read-outcome"} ELSE Same("fmt-read", e.r, d.r))
         \cup (IF e.kout # "ok" THEN {"fmt-known-length-outcome"} ELSE Same("fmt-known-length", e.k, d.r))
         \cup Clause("fmt-consumed", e.rout = "ok" => e.pos = 8 * d.end)
         \cup Clause("fmt-known-consumed", e.kout = "ok" => e.kpos = 8 * d.end)
FailsRef(e) ==
    LET h == IF e.bytes[7] = 50 THEN 9 + e.bytes[8] + 256 * e.bytes[9] ELSE 0
        bad == SubSeq(e.bytes, 1, 6) # DFRPL \/ SubSeq(e.bytes, h + 1, h + 6) # DFRPL \/ e.bytes[h + 7] - 48 \notin Versions
    IN  IF ~bad THEN {"harness-good-file"} ELSE Clause("fmt-refused", e.rout = "LevelParseException")
(* values between two steps of the resolution (lo + f/1000): the nearest one, either at the middle *)
Nearest(q) == IF q.f < 499 THEN {q.lo} ELSE IF q.f > 501 THEN {q.lo + 1} ELSE {q.lo, q.lo + 1}
FailsApx(e) == Clause("rp-resolution", e.rout = "ok" /\ \A i \in 1..Len(e.pos) : e.pos[i].r \in Nearest(e.pos[i]))
Fails(e) == CASE e.op = "rt" -> FailsRt(e) [] e.op = "look" -> FailsLook(e) [] e.op = "dec" -> FailsDec(e) [] e.op = "ref" -> FailsRef(e) [] e.op = "apx" -> FailsApx(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
