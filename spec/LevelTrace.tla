----------------------------- MODULE LevelTrace -----------------------------
(* Judges recorded writes and reads of level files.                             *)
(*   rt-*   C05 write/read back        wf-*   C06 container well-formedness      *)
(*   meta-* C07 metadata-only edits    leg-*  C08 reading any revision           *)
EXTENDS LevelFile, EnemyData, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
SetOf(s) == {s[i] : i \in 1..Len(s)}

(* what the format keeps of a content: filth only on the collision layer, and   *)
(* only if some edge has filth                                                   *)
CanonTile(t) == IF t.l = 19 /\ HasFilth(t.e) THEN t ELSE [t EXCEPT !.e = ClearFilth(t.e)]
Canon(c) == [vars |-> c.vars, sshot |-> c.sshot,
             tiles |-> {CanonTile(c.tiles[i]) : i \in 1..Len(c.tiles)}, props |-> SetOf(c.props), ents |-> SetOf(c.ents),
             btiles |-> {CanonTile(c.btiles[i]) : i \in 1..Len(c.btiles)}, bprops |-> SetOf(c.bprops)]
AsSets(c) == [vars |-> c.vars, sshot |-> c.sshot, tiles |-> SetOf(c.tiles), props |-> SetOf(c.props), ents |-> SetOf(c.ents),
              btiles |-> SetOf(c.btiles), bprops |-> SetOf(c.bprops)]
Same(pre, r, c) ==
    Clause(pre \o "-variables", r.vars = c.vars) \cup Clause(pre \o "-sshot", r.sshot = c.sshot)
    \cup Clause(pre \o "-tiles", r.tiles = c.tiles) \cup Clause(pre \o "-props", r.props = c.props)
    \cup Clause(pre \o "-entities", r.ents = c.ents)
    \cup Clause(pre \o "-backdrop", r.btiles = c.btiles /\ r.bprops = c.bprops)

(* ---- filth of enemies by type name ---- *)
EnemyFilth(ty) == LET hits == {i \in 1..Len(FilthTable) : FilthTable[i].n = ty} IN
                  IF hits = {} THEN 0 ELSE FilthTable[CHOOSE i \in hits : TRUE].f

FailsSeg(Sg) ==
    Clause("wf-in-segment", InSegment(Sg))
    \cup Clause("wf-layers", NoRepeats(Sg.layers, LAMBDA y : y.l) /\ \A i \in 1..Len(Sg.layers) : Len(Sg.layers[i].tiles) > 0
                /\ NoRepeats(Sg.layers[i].tiles, LAMBDA t : << t.x, t.y >>))
    \cup Clause("wf-dust", NoRepeats(Sg.dust, LAMBDA q : << q.x, q.y >>)
                /\ \A i \in 1..Len(Sg.dust) : \E j \in 1..Len(Sg.layers) : Sg.layers[j].l = 19
                       /\ \E k \in 1..Len(Sg.layers[j].tiles) : Sg.layers[j].tiles[k].x = Sg.dust[i].x /\ Sg.layers[j].tiles[k].y = Sg.dust[i].y)
    \cup Clause("wf-totals", Sg.hdr = Totals(Sg, EnemyFilth))
SortedBy(s, K(_)) == \A i \in 1..(Len(s) - 1) : Before(K(s[i]), K(s[i + 1]))
(* the segment a prop or an entity is kept in covers its position, to within a   *)
(* tile (a position just left of zero may be counted to the tile right of it)    *)
Covers(base, tile) == base - 1 <= tile /\ tile <= base + 16
PlacedAt(Rg, Sg) ==
    LET bx == 256 * Rg.x + 16 * Sg.x
        by == 256 * Rg.y + 16 * Sg.y
    IN  /\ \A i \in 1..Len(Sg.props) : Covers(bx, (Sg.props[i].px \div 8) \div 48) /\ Covers(by, (Sg.props[i].py \div 8) \div 48)
        /\ \A i \in 1..Len(Sg.ents) : Covers(bx, Sg.ents[i].xi \div 48) /\ Covers(by, Sg.ents[i].yi \div 48)
FailsRegion(Rg) ==
    Clause("wf-segment-order", SortedBy(Rg.segs, SegKey))
    \cup Clause("wf-placed", \A i \in 1..Len(Rg.segs) : PlacedAt(Rg, Rg.segs[i])) \cup UNION {FailsSeg(Rg.segs[i]) : i \in 1..Len(Rg.segs)}
    \cup UNION {FailsSeg(Rg.bd[i]) \cup Clause("wf-backdrop-segment", Rg.bd[i].x = 0 /\ Rg.bd[i].y = 0) : i \in 1..Len(Rg.bd)}

FailsWF(e, c) ==
    LET d == DecLevel(e.bytes, e.blobs) IN
    IF ~d.ok THEN {"wf-malformed"}
    ELSE Clause("wf-version", d.h.ver = 44 /\ d.h.mver = 4) \cup Clause("wf-file-size", d.h.fsize = Len(e.bytes) /\ d.end = Len(e.bytes))
         \cup Clause("wf-records", d.exact)
         \cup Clause("wf-directory", d.h.dir = [i \in 1..Len(d.offs) |-> d.offs[i] - d.h.base])
         \cup Clause("wf-region-order", SortedBy(d.f.regions, RegionKey))
         \cup Clause("wf-next-id", LET ids == AllIds(d.f) IN \A i \in 1..Len(ids) : d.h.uid > ids[i])
         \cup UNION {FailsRegion(d.f.regions[i]) : i \in 1..Len(d.f.regions)}
         \cup Same("wf", Meaning(d.f), c)

FailsRt(e) ==
    LET c == Canon(e.c) IN
    IF e.out # "ok" THEN {"rt-write-outcome", "wf-write-outcome"}
    ELSE Clause("rt-source-changed", e.c2 = e.c)
         \cup (IF e.rout # "ok" THEN {"rt-read-outcome"} ELSE Same("rt", AsSets(e.r), c))
         \cup (IF e.wf THEN FailsWF(e, c) ELSE {})

(* positions that are not on the format's grid: one of the two grid neighbours *)
FailsApx(e) == Clause("rt-resolution", e.rout = "ok" /\ \A i \in 1..Len(e.pos) : e.pos[i].r \in {e.pos[i].lo, e.pos[i].hi})

(* a file of any revision, read by the code *)
FailsLeg(e) ==
    LET d == DecLevel(e.bytes, e.blobs) IN
    IF ~d.ok \/ ~d.exact THEN {"harness-bad-file"}
    ELSE (IF e.rout # "ok" THEN {"leg-read-outcome"} ELSE Same("leg", AsSets(e.r), Meaning(d.f)))
         \cup (IF e.hout # "ok" THEN {"leg-head-outcome"}
               ELSE LET m == Meaning(d.f) IN Clause("leg-head-only", e.h.n = 0) \cup Clause("leg-head", e.h.vars = m.vars /\ e.h.sshot = m.sshot))
(* a file that must be refused *)
FailsRef(e) ==
    LET bad == \/ Len(e.bytes) < 8 \/ SubSeq(e.bytes, 1, 6) # DFLVL \/ U(e.bytes, 48, 16) <= 42
               \/ (Len(e.bytes) >= 22 /\ SubSeq(e.bytes, 17, 22) # DFMTD)
    IN  IF ~bad THEN {"harness-good-file"} ELSE Clause("leg-refused", e.rout = "LevelParseException")

(* metadata-only edit of file b0 into file b1 *)
FailsMeta(e) ==
    LET h0 == DecHead(e.b0) IN
    IF ~h0.ok THEN {"harness-bad-file"}
    ELSE IF e.out # "ok" THEN {"meta-outcome"}
    ELSE LET h1 == DecHead(e.b1) IN
         IF ~h1.ok THEN {"meta-malformed"}
         ELSE Clause("meta-offsets", e.offs = Append(h0.dir, Len(e.b0) - h0.base))
              \cup Clause("meta-directory", h1.dir = h0.dir /\ h1.nreg = h0.nreg)
              \cup Clause("meta-regions", SubSeq(e.b1, h1.base + 1, Len(e.b1)) = SubSeq(e.b0, h0.base + 1, Len(e.b0)))
              \cup Clause("meta-size", h1.fsize = Len(e.b1) /\ h1.ver = 44)
              \cup Clause("meta-variables", h1.vars = e.vars) \cup Clause("meta-sshot", h1.sshot = e.sshot)
              \cup (LET d == DecLevel(e.b1, e.blobs) IN
                    IF ~d.ok THEN {"meta-decode"}
                    ELSE LET ids == AllIds(d.f)
                             m == [Meaning(d.f) EXCEPT !.vars = e.vars, !.sshot = e.sshot]
                         IN  Clause("wf-next-id-kept", (\A i \in 1..Len(ids) : h0.uid > ids[i]) => (\A i \in 1..Len(ids) : h1.uid > ids[i]))
                             \cup (IF e.rout # "ok" THEN {"meta-read-outcome"} ELSE Same("meta", AsSets(e.r), m)))
FailsLen(e) == Clause("meta-length-refused", (e.given # e.declared) => e.out = "LevelParseException")
               \cup Clause("meta-length-accepted", (e.given = e.declared) => e.out = "ok")
(* files written at an offset or one after another *)
FailsSeq(e) ==
    Clause("meta-seq-outcome", e.out = "ok" /\ e.rout = "ok")
    \cup Clause("meta-seq-bytes", e.out = "ok" => e.all = e.prefix \o Cat(e.alone) \o e.suffix)
    \cup Clause("meta-seq-read", e.rout = "ok" => e.same)

Fails(e) == CASE e.op = "rt" -> FailsRt(e)
              [] e.op = "apx" -> FailsApx(e)
              [] e.op = "leg" -> FailsLeg(e)
              [] e.op = "ref" -> FailsRef(e)
              [] e.op = "meta" -> FailsMeta(e)
              [] e.op = "len" -> FailsLen(e)
              [] e.op = "seq" -> FailsSeq(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
