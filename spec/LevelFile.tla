------------------------------ MODULE LevelFile ------------------------------
(* The Dustforce level container, revisions 43 and later, segments 4..8.        *)
(*                                                                              *)
(* Abstract file:                                                               *)
(*  F = [ver, sshot, uid, vars, regions]                                        *)
(*  region = [x, y, segs, bd]     bd: sequence of 0 or 1 backdrop segments       *)
(*  segment = [ver, x, y, hdr, layers, dust, props, ents, slack]                 *)
(*    hdr = << dust, enemy, surface, dustblocks >>                               *)
(*    layers = << [l, tiles = << [x, y, sh, fl, d] >>] >>                         *)
(*    dust = << [x, y, d] >>                                                     *)
(*    props = << [id, l, sub, px, py, sc, rot, fx, fy, set, grp, idx, pal] >>     *)
(*        position in 1/8 px, sc = << xscale, yscale >> fields (new encoding)     *)
(*    ents = << [id, nm, ext, xi, xf, yi, yf, rot, l, fcx, fcy, vis, vars] >>     *)
(*  Records with a negative id are placeholders that consist of the id only.     *)
EXTENDS VarCodec, TileData, Zlib, FiniteSets

ENTITY == << 101, 110, 116, 105, 116, 121 >>       \* "entity"
DFLVL == << 68, 70, 95, 76, 86, 76 >>
DFMTD == << 68, 70, 95, 77, 84, 68 >>
NewProps(ver, mod) == ver > 6 \/ mod
X4(v) == LET w == v % 8 IN IF w >= 4 THEN w - 4 ELSE w + 4
ScaleStep(sc) == X4(sc[1]) * 7 + X4(sc[2])

(* ------------------------------ encoder ------------------------------ *)
CatMap(F(_), s) == Cat([i \in 1..Len(s) |-> F(s[i])])

EncTileRec(t) == EncU(5, t.x) \o EncU(5, t.y) \o EncU(5, t.sh) \o EncU(3, t.fl) \o EncBytes(t.d)
EncLayer(ly) == EncU(8, ly.l) \o EncU(10, Len(ly.tiles)) \o CatMap(EncTileRec, ly.tiles)
EncDustRec(q) == EncU(5, q.x) \o EncU(5, q.y) \o EncBytes(q.d)
EncPos27(v, s) == << IF v < 0 THEN 1 ELSE 0 >> \o EncU(27, AbsOf(v) \div 8) \o EncU(4, s)
EncProp(p, new) ==
    IF p.id < 0 THEN Enc32(p.id)
    ELSE Enc32(p.id) \o EncU(8, p.l) \o EncU(8, p.sub)
         \o (IF new THEN EncPos27(p.px, p.sc[1]) \o EncPos27(p.py, p.sc[2])
             ELSE EncFix(28, 4, p.px \div 8, p.px % 8) \o EncFix(28, 4, p.py \div 8, p.py % 8))
         \o EncU(16, p.rot) \o << p.fx, p.fy >> \o EncU(8, p.set) \o EncU(12, p.grp) \o EncU(12, p.idx) \o EncU(8, p.pal)
EncNewProp(p) == EncProp(p, TRUE)
EncOldProp(p) == EncProp(p, FALSE)
EncEnt(e) ==
    IF e.id < 0 THEN Enc32(e.id)
    ELSE Enc32(e.id) \o EncText(e.nm) \o EncFix(32, 8, e.xi, e.xf) \o EncFix(32, 8, e.yi, e.yf)
         \o EncU(16, e.rot) \o EncU(8, e.l) \o << e.fcx, e.fcy, e.vis >> \o EncVar(e.vars)
Extended(e, ver) == ver > 7 /\ e.id >= 0 /\ e.nm = ENTITY
RECURSIVE EncNames(_, _, _)
EncNames(es, ver, i) == IF i > Len(es) THEN << >>
                        ELSE (IF Extended(es[i], ver) THEN EncText(es[i].ext) ELSE << >>) \o EncNames(es, ver, i + 1)
FlagsOf(S) == (IF Len(S.layers) > 0 THEN 1 ELSE 0) + (IF Len(S.dust) > 0 THEN 2 ELSE 0)
              + (IF Len(S.ents) > 0 THEN 4 ELSE 0) + (IF Len(S.props) > 0 THEN 8 ELSE 0)
Zeros(n) == [i \in 1..n |-> 0]
EncSeg(S, mod) ==
    LET hdr == EncU(16, S.ver) \o EncU(8, S.x) \o EncU(8, S.y) \o EncU(8, 16)
               \o (IF S.ver > 4 THEN Zeros(32) \o EncU(16, S.hdr[1]) \o EncU(16, S.hdr[2]) ELSE << >>)
               \o (IF S.ver > 5 THEN EncU(16, S.hdr[3]) \o EncU(16, S.hdr[4]) ELSE << >>)
               \o Enc32(FlagsOf(S))
        body == (IF Len(S.layers) > 0 THEN EncU(8, Len(S.layers)) \o CatMap(EncLayer, S.layers) ELSE << >>)
                \o (IF Len(S.dust) > 0 THEN EncU(10, Len(S.dust)) \o CatMap(EncDustRec, S.dust) ELSE << >>)
                \o (IF Len(S.props) > 0 THEN EncU(16, Len(S.props))
                        \o (IF NewProps(S.ver, mod) THEN CatMap(EncNewProp, S.props) ELSE CatMap(EncOldProp, S.props)) ELSE << >>)
                \o (IF Len(S.ents) > 0 THEN EncU(16, Len(S.ents)) \o CatMap(EncEnt, S.ents) ELSE << >>)
        tailed == Len(S.ents) > 0 /\ S.ver > 7
        pre == Zeros(32) \o hdr \o body \o (IF tailed THEN Zeros(8 * S.slack) ELSE << >>)
        names == PadTo8(EncNames(S.ents, S.ver, 1))
        withn == IF tailed THEN PadTo8(pre \o names) ELSE PadTo8(pre) \o Zeros(8 * S.slack)
        all == IF tailed THEN withn \o Enc32(Len(withn) - Len(pre)) ELSE withn
    IN  ToBytes(Enc32(Len(all) \div 8) \o SubSeq(all, 33, Len(all)))

EncRegion(R, mod) ==
    LET S1(S) == EncSeg(S, mod)
        S0(S) == EncSeg(S, FALSE)           \* a backdrop has no level type of its own
        raw == CatMap(S1, R.segs) \o CatMap(S0, R.bd)
        z == ZStore(raw)
    IN  ToBytes(Enc32(17 + Len(z)) \o Enc32(Len(raw)) \o EncU(16, R.x % 65536) \o EncU(16, R.y % 65536)
                \o EncU(16, 14) \o EncU(16, Len(R.segs)) \o EncU(8, Len(R.bd))) \o z

LEVELTYPE == << 108, 101, 118, 101, 108, 95, 116, 121, 112, 101 >>      \* "level_type"
IsMod(vars) == \E i \in 1..Len(vars.kv) : vars.kv[i].k = LEVELTYPE /\ vars.kv[i].v = [t |-> TINT, n |-> 6]
RECURSIVE Offsets(_, _, _)
Offsets(rs, i, at) == IF i > Len(rs) THEN << >> ELSE << at >> \o Offsets(rs, i + 1, at + Len(rs[i]))
EncLevel(F) ==
    LET mod == IsMod(F.vars)
        rs == [i \in 1..Len(F.regions) |-> EncRegion(F.regions[i], mod)] \o << >>
        body == Cat(rs)
        offs == Offsets(rs, 1, 0)
        meta == ToBytes(EncBytes(DFMTD) \o EncU(16, 4) \o Zeros(32) \o Enc32(F.uid) \o Zeros(96))
        shot == IF F.ver > 43 THEN ToBytes(Enc32(Len(F.sshot))) \o F.sshot ELSE << >>
        E32(v) == Enc32(v)
        tail == ToBytes(EncVar(F.vars) \o CatMap(E32, offs))
        total == 6 + 2 + 4 + 4 + Len(meta) + Len(shot) + Len(tail) + Len(body)
    IN  DFLVL \o ToBytes(EncU(16, F.ver) \o Enc32(total) \o Enc32(Len(rs))) \o meta \o shot \o tail \o body

(* ------------------------------ decoder ------------------------------ *)
RECURSIVE DecTilesR(_, _, _, _), DecLayersR(_, _, _, _), DecDustR(_, _, _, _), DecPropsR(_, _, _, _, _), DecEntsR(_, _, _, _), DecNamesR(_, _, _, _, _)
DecTilesR(b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE IF ~Has(b, p, 114) THEN Fail
    ELSE DecTilesR(b, p + 114, n - 1,
           Append(acc, [x |-> U(b, p, 5), y |-> U(b, p + 5, 5), sh |-> U(b, p + 10, 5), fl |-> U(b, p + 15, 3), d |-> BytesAt(b, p + 18, 12)]))
DecLayersR(b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE IF ~Has(b, p, 18) THEN Fail
    ELSE LET t == DecTilesR(b, p + 18, U(b, p + 8, 10), << >>) IN
         IF ~t.ok THEN Fail ELSE DecLayersR(b, t.p, n - 1, Append(acc, [l |-> U(b, p, 8), tiles |-> t.v]))
DecDustR(b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE IF ~Has(b, p, 106) THEN Fail
    ELSE DecDustR(b, p + 106, n - 1, Append(acc, [x |-> U(b, p, 5), y |-> U(b, p + 5, 5), d |-> BytesAt(b, p + 10, 12)]))
Sgn(bit, m) == IF bit = 1 THEN -m ELSE m
DecPropsR(b, p, n, new, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE IF ~Has(b, p, 32) THEN Fail
    ELSE IF I32(b, p) < 0 THEN DecPropsR(b, p + 32, n - 1, new, Append(acc, [id |-> I32(b, p)]))
    ELSE IF ~Has(b, p, 170) THEN Fail
    ELSE LET q == p + 48
             r == p + 112
             x == IF new THEN [ok |-> TRUE, v |-> 8 * Sgn(BitAt(b, q), U(b, q + 1, 27))]
                  ELSE LET f == DecFix(b, q, 28, 4) IN IF ~f.ok THEN Fail ELSE [ok |-> TRUE, v |-> 8 * f.i + f.f]
             y == IF new THEN [ok |-> TRUE, v |-> 8 * Sgn(BitAt(b, q + 32), U(b, q + 33, 27))]
                  ELSE LET f == DecFix(b, q + 32, 28, 4) IN IF ~f.ok THEN Fail ELSE [ok |-> TRUE, v |-> 8 * f.i + f.f]
             sc == IF new THEN << U(b, q + 28, 4), U(b, q + 60, 4) >> ELSE << 0, 0 >>
         IN  IF ~x.ok \/ ~y.ok THEN Fail
             ELSE DecPropsR(b, p + 170, n - 1, new,
                    Append(acc, [id |-> I32(b, p), l |-> U(b, p + 32, 8), sub |-> U(b, p + 40, 8), px |-> x.v, py |-> y.v, sc |-> sc,
                                 rot |-> U(b, r, 16), fx |-> BitAt(b, r + 16), fy |-> BitAt(b, r + 17), set |-> U(b, r + 18, 8),
                                 grp |-> U(b, r + 26, 12), idx |-> U(b, r + 38, 12), pal |-> U(b, r + 50, 8)]))
DecEntsR(b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE IF ~Has(b, p, 32) THEN Fail
    ELSE IF I32(b, p) < 0 THEN DecEntsR(b, p + 32, n - 1, Append(acc, [id |-> I32(b, p)]))
    ELSE LET nm == DecText(b, p + 32) IN
         IF ~nm.ok \/ ~Has(b, nm.p, 107) THEN Fail
         ELSE LET x == DecFix(b, nm.p, 32, 8)
                  y == DecFix(b, nm.p + 40, 32, 8)
                  r == nm.p + 80
                  d == DecVar(b, nm.p + 107, TSTRUCT)
              IN  IF ~x.ok \/ ~y.ok \/ ~d.ok THEN Fail
                  ELSE DecEntsR(b, d.p, n - 1,
                         Append(acc, [id |-> I32(b, p), nm |-> nm.k, ext |-> << >>, xi |-> x.i, xf |-> x.f, yi |-> y.i, yf |-> y.f,
                                      rot |-> U(b, r, 16), l |-> U(b, r + 16, 8), fcx |-> BitAt(b, r + 24), fcy |-> BitAt(b, r + 25),
                                      vis |-> BitAt(b, r + 26), vars |-> d.v]))
(* fill in the extended names, in record order *)
DecNamesR(b, p, es, ver, i) ==
    IF i > Len(es) THEN [ok |-> TRUE, v |-> es, p |-> p]
    ELSE IF ~Extended(es[i], ver) THEN DecNamesR(b, p, es, ver, i + 1)
    ELSE LET n == DecText(b, p) IN
         IF ~n.ok THEN Fail ELSE DecNamesR(b, n.p, [es EXCEPT ![i].ext = n.k], ver, i + 1)

DecSeg(b, o, mod) ==         \* segment at byte offset o
    LET s == 8 * o IN
    IF ~Has(b, s, 72 + 32) THEN Fail
    ELSE LET size == I32(b, s)
             ver == U(b, s + 32, 16)
             h == s + 72
             h2 == h + (IF ver > 4 THEN 64 ELSE 0)
             h3 == h2 + (IF ver > 5 THEN 32 ELSE 0)
             end == s + 8 * size
         IN  IF size < 13 \/ ~Has(b, s, 8 * size) \/ h3 + 32 > end THEN Fail
             ELSE LET fl == U(b, h3, 31)
                      p0 == h3 + 32
                      L == IF fl % 2 = 1 THEN (IF Has(b, p0, 8) THEN DecLayersR(b, p0 + 8, U(b, p0, 8), << >>) ELSE Fail)
                           ELSE [ok |-> TRUE, v |-> << >>, p |-> p0]
                      D == IF ~L.ok THEN Fail
                           ELSE IF (fl \div 2) % 2 = 1 THEN (IF Has(b, L.p, 10) THEN DecDustR(b, L.p + 10, U(b, L.p, 10), << >>) ELSE Fail)
                           ELSE [ok |-> TRUE, v |-> << >>, p |-> L.p]
                      P == IF ~D.ok THEN Fail
                           ELSE IF (fl \div 8) % 2 = 1 THEN (IF Has(b, D.p, 16) THEN DecPropsR(b, D.p + 16, U(b, D.p, 16), NewProps(ver, mod), << >>) ELSE Fail)
                           ELSE [ok |-> TRUE, v |-> << >>, p |-> D.p]
                      E == IF ~P.ok THEN Fail
                           ELSE IF (fl \div 4) % 2 = 1 THEN (IF Has(b, P.p, 16) THEN DecEntsR(b, P.p + 16, U(b, P.p, 16), << >>) ELSE Fail)
                           ELSE [ok |-> TRUE, v |-> << >>, p |-> P.p]
                  IN  IF ~E.ok \/ E.p > end THEN Fail
                      ELSE LET tailed == ver > 7 /\ (fl \div 4) % 2 = 1
                               nidx == I32(b, end - 32)
                               npos == end - 32 - nidx
                               N == IF ~tailed THEN [ok |-> TRUE, v |-> E.v, p |-> E.p]
                                    ELSE IF nidx < 0 \/ npos < E.p THEN Fail
                                    ELSE DecNamesR(b, npos, E.v, ver, 1)
                               slack == IF tailed THEN (npos - E.p) \div 8 ELSE (end - AlignUp(E.p)) \div 8
                               exact == IF tailed THEN (npos - E.p) % 8 = 0 /\ N.ok /\ AlignUp(npos + 8 * ((N.p - npos + 7) \div 8)) = end - 32
                                        ELSE TRUE
                           IN  IF ~N.ok THEN Fail
                               ELSE [ok |-> TRUE, o |-> o + size, exact |-> exact, flags |-> fl,
                                     v |-> [ver |-> ver, x |-> U(b, s + 48, 8), y |-> U(b, s + 56, 8),
                                            hdr |-> << IF ver > 4 THEN U(b, h + 32, 16) ELSE 0, IF ver > 4 THEN U(b, h + 48, 16) ELSE 0,
                                                       IF ver > 5 THEN U(b, h2, 16) ELSE 0, IF ver > 5 THEN U(b, h2 + 16, 16) ELSE 0 >>,
                                            layers |-> L.v, dust |-> D.v, props |-> P.v, ents |-> N.v, slack |-> slack]]
RECURSIVE DecSegsR(_, _, _, _, _)
DecSegsR(b, o, n, mod, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc.v, exact |-> acc.exact, o |-> o]
    ELSE LET d == DecSeg(b, o, mod) IN
         IF ~d.ok THEN Fail
         ELSE DecSegsR(b, d.o, n - 1, mod, [v |-> Append(acc.v, d.v), exact |-> acc.exact /\ d.exact /\ d.flags = FlagsOf(d.v)])

(* the decompressed content of n bytes at byte offset o *)
ZRaw(b, o, n, blobs) ==
    IF \E i \in 1..Len(blobs) : blobs[i].o = o /\ blobs[i].n = n
    THEN [ok |-> TRUE, raw |-> blobs[CHOOSE i \in 1..Len(blobs) : blobs[i].o = o /\ blobs[i].n = n].raw]
    ELSE IF Stored(b, o, n) THEN [ok |-> TRUE, raw |-> SubSeq(b, o + 8, o + n - 4)]
    ELSE Fail

DecRegion(b, o, mod, blobs) ==
    LET p == 8 * o IN
    IF ~Has(b, p, 136) THEN Fail
    ELSE LET len == I32(b, p)
             z == IF len < 17 \/ ~Has(b, p, 8 * len) THEN Fail ELSE ZRaw(b, o + 17, len - 17, blobs)
         IN  IF ~z.ok THEN Fail
             ELSE LET ns == U(b, p + 112, 16)
                      nb == U(b, p + 128, 8)
                      s == DecSegsR(z.raw, 0, ns, mod, [v |-> << >>, exact |-> TRUE])
                      bd == IF ~s.ok THEN Fail ELSE DecSegsR(z.raw, s.o, IF nb > 0 THEN 1 ELSE 0, FALSE, [v |-> << >>, exact |-> TRUE])
                  IN  IF ~s.ok \/ ~bd.ok THEN Fail
                      ELSE [ok |-> TRUE, o |-> o + len,
                            exact |-> s.exact /\ bd.exact /\ bd.o = Len(z.raw) /\ I32(b, p + 32) = Len(z.raw) /\ nb <= 1,
                            rver |-> U(b, p + 96, 16),
                            v |-> [x |-> I16(b, p + 64), y |-> I16(b, p + 80), segs |-> s.v, bd |-> bd.v]]
RECURSIVE DecRegionsR(_, _, _, _, _, _)
DecRegionsR(b, o, n, mod, blobs, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc.v, offs |-> acc.offs, exact |-> acc.exact, o |-> o]
    ELSE LET d == DecRegion(b, o, mod, blobs) IN
         IF ~d.ok THEN Fail
         ELSE DecRegionsR(b, d.o, n - 1, mod, blobs,
                [v |-> Append(acc.v, d.v), offs |-> Append(acc.offs, o), exact |-> acc.exact /\ d.exact /\ d.rver = 14])

(* file header, metadata, thumbnail, variables, directory *)
DecHead(b) ==
    IF ~Has(b, 0, 8 * 44) \/ SubSeq(b, 1, 6) # DFLVL \/ SubSeq(b, 17, 22) # DFMTD THEN Fail
    ELSE LET ver == U(b, 48, 16)
             fs == I32(b, 64)
             nr == I32(b, 96)
             uid == I32(b, 128 + 96)
             q == 128 + 224
             sl == IF ver > 43 THEN (IF Has(b, q, 32) THEN I32(b, q) ELSE -1) ELSE 0
             q2 == IF ver > 43 THEN q + 32 ELSE q
         IN  IF ver <= 42 \/ sl < 0 \/ ~Has(b, q2, 8 * sl) \/ nr < 0 THEN Fail
             ELSE LET d == DecVar(b, q2 + 8 * sl, TSTRUCT) IN
                  IF ~d.ok \/ ~Has(b, d.p, 32 * nr) THEN Fail
                  ELSE [ok |-> TRUE, ver |-> ver, fsize |-> fs, nreg |-> nr, uid |-> uid, mver |-> U(b, 128 + 48, 16),
                        sshot |-> BytesAt(b, q2, sl), vars |-> d.v,
                        dir |-> [i \in 1..nr |-> I32(b, d.p + 32 * (i - 1))], base |-> (d.p + 32 * nr + 7) \div 8]
DecLevel(b, blobs) ==
    LET h == DecHead(b) IN
    IF ~h.ok THEN Fail
    ELSE LET r == DecRegionsR(b, h.base, h.nreg, IsMod(h.vars), blobs, [v |-> << >>, offs |-> << >>, exact |-> TRUE]) IN
         IF ~r.ok THEN Fail
         ELSE [ok |-> TRUE, h |-> h, exact |-> r.exact, offs |-> r.offs, end |-> r.o,
               f |-> [ver |-> h.ver, sshot |-> h.sshot, uid |-> h.uid, vars |-> h.vars, regions |-> r.v]]

(* ------------------------------ meaning ------------------------------ *)
Flat(G(_), s) == CatMap(G, s)

LastDust(S, x, y) ==
    LET hits == {i \in 1..Len(S.dust) : S.dust[i].x = x /\ S.dust[i].y = y} IN
    IF hits = {} THEN NoDust ELSE S.dust[CHOOSE i \in hits : \A j \in hits : j <= i].d
TileOf(S, ox, oy, l, t) ==
    LET sp == SpriteOf(t.d) IN
    [l |-> l, x |-> ox + 16 * S.x + t.x, y |-> oy + 16 * S.y + t.y, sh |-> t.sh, fl |-> t.fl,
     ss |-> sp.ss, sp |-> sp.sp, st |-> sp.st,
     e |-> EdgesOf(t.d, IF l = 19 THEN LastDust(S, t.x, t.y) ELSE NoDust)]
SegTiles(S, ox, oy) ==
    LET G(ly) == [i \in 1..Len(ly.tiles) |-> TileOf(S, ox, oy, ly.l, ly.tiles[i])] IN Flat(G, S.layers)
LastBy(recs, K(_)) == {recs[i] : i \in {i \in 1..Len(recs) : \A j \in (i + 1)..Len(recs) : K(recs[j]) # K(recs[i])}}
IdOf(r) == r.id
CellOf(t) == << t.l, t.x, t.y >>
PropOf(p, new) == [id |-> p.id, l |-> p.l, sub |-> p.sub, px |-> p.px, py |-> p.py, lg |-> IF new THEN ScaleStep(p.sc) ELSE 32,
                   rot |-> p.rot, fx |-> p.fx, fy |-> p.fy, set |-> p.set, grp |-> p.grp, idx |-> p.idx, pal |-> p.pal]
Real(recs) == SelectSeq(recs, LAMBDA r : r.id >= 0)
SegProps(S, mod) == LET q == Real(S.props) IN [i \in 1..Len(q) |-> PropOf(q[i], NewProps(S.ver, mod))]
EntOf(e, ver) == [id |-> e.id, ty |-> IF Extended(e, ver) THEN e.ext ELSE e.nm, xi |-> e.xi, xf |-> e.xf, yi |-> e.yi, yf |-> e.yf,
                  rot |-> e.rot, l |-> e.l, fx |-> 1 - e.fcx, fy |-> 1 - e.fcy, vis |-> e.vis, vars |-> e.vars]
SegEnts(S) == LET q == Real(S.ents) IN [i \in 1..Len(q) |-> EntOf(q[i], S.ver)]

Meaning(F) ==
    LET mod == IsMod(F.vars)
        T(R) == LET G(S) == SegTiles(S, 256 * R.x, 256 * R.y) IN Flat(G, R.segs)
        P(R) == LET G(S) == SegProps(S, mod) IN Flat(G, R.segs)
        E(R) == LET G(S) == SegEnts(S) IN Flat(G, R.segs)
        BT(R) == LET G(S) == SegTiles(S, 16 * R.x, 16 * R.y) IN Flat(G, R.bd)
        BP(R) == LET G(S) == SegProps(S, FALSE) IN Flat(G, R.bd)
    IN  [vars |-> F.vars, sshot |-> F.sshot,
         tiles |-> LastBy(Flat(T, F.regions), CellOf), props |-> LastBy(Flat(P, F.regions), IdOf),
         ents |-> LastBy(Flat(E, F.regions), IdOf),
         btiles |-> LastBy(Flat(BT, F.regions), CellOf), bprops |-> LastBy(Flat(BP, F.regions), IdOf)]

(* ------------------------- well-formed as written ------------------------- *)
(* filth of the enemies, by entity type name *)
Seg19(S) == LET G(ly) == IF ly.l = 19 THEN [i \in 1..Len(ly.tiles) |-> TileOf(S, 0, 0, 19, ly.tiles[i])] ELSE << >> IN Flat(G, S.layers)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
SumMap(F(_), s) == SumSeq([i \in 1..Len(s) |-> F(s[i])], 1)
Totals(S, EnemyFilth(_)) ==
    LET ts == Seg19(S)
        D(t) == DustCount(t.e)
        A(t) == SurfaceCount(t.e)
        B(t) == IF IsDustblock(t.ss, t.st) THEN 1 ELSE 0
        E(e) == EnemyFilth(e.ty)
    IN  << SumMap(D, ts), SumMap(E, SegEnts(S)), SumMap(A, ts), SumMap(B, ts) >>
InSegment(S) == /\ S.x \in 0..15 /\ S.y \in 0..15
                /\ \A i \in 1..Len(S.layers) : \A j \in 1..Len(S.layers[i].tiles) :
                      S.layers[i].tiles[j].x \in 0..15 /\ S.layers[i].tiles[j].y \in 0..15
NoRepeats(recs, K(_)) == \A i, j \in 1..Len(recs) : i # j => K(recs[i]) # K(recs[j])
RegionKey(R) == << R.x % 65536, R.y % 65536 >>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SegKey(S) == << S.x, S.y >>
AllIds(F) ==
    LET G(R) == LET H(S) == [i \in 1..(Len(S.props) + Len(S.ents)) |->
                                IF i <= Len(S.props) THEN S.props[i].id ELSE S.ents[i - Len(S.props)].id]
                IN Flat(H, R.segs) \o Flat(H, R.bd)
    IN  Flat(G, F.regions)
=============================================================================
