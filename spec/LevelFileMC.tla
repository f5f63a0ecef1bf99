----------------------------- MODULE LevelFileMC -----------------------------
(* A level file built record by record, in every supported revision.  At every  *)
(* step the file decodes to exactly what was put in, sizes and flags included.  *)
EXTENDS LevelFile, TLC, Json
CONSTANTS DEPTH, MutateSwap       \* MutateSwap: encoder forgets to swap corners (must be caught)
VARIABLES F, n

KV(k, v) == [k |-> k, v |-> v]
NoVars == [t |-> TSTRUCT, kv |-> << >>]
ModVars == [t |-> TSTRUCT, kv |-> << KV(LEVELTYPE, [t |-> TINT, n |-> 6]) >>]
TileA == [x |-> 0, y |-> 15, sh |-> 0, fl |-> 4, d |-> << 241, 27, 1, 255, 45, 128, 127, 90, 211, 7, 33, 21 >>]
TileB == [x |-> 15, y |-> 3, sh |-> 20, fl |-> 7, d |-> << 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 13 >>]
Dust1 == [x |-> 0, y |-> 15, d |-> << 82, 7, 9, 247, 128, 127, 1, 2, 3, 4, 177, 0 >>]
Dust2 == [x |-> 7, y |-> 7, d |-> << 17, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>]      \* no tile there
Pr(id, px) == [id |-> id, l |-> 12, sub |-> 24, px |-> px, py |-> -px, sc |-> << 0, 0 >>, rot |-> 49153, fx |-> 1, fy |-> 0,
               set |-> 5, grp |-> 4095, idx |-> 257, pal |-> 200]
PropNew == [Pr(101, 8 * 4807) EXCEPT !.sc = << 1, 6 >>]
PropOld == Pr(101, 4807)
Placeholder == [id |-> -1]
Ent(id, nm, ext, v) == [id |-> id, nm |-> nm, ext |-> ext, xi |-> -49, xf |-> 127, yi |-> 70000, yf |-> 1, rot |-> 16384, l |-> 18,
                        fcx |-> 1, fcy |-> 0, vis |-> 1, vars |-> v]
NameZ == << 122, 95, 97 >>                        \* z_a
NameA == << 102, 108, 97, 103 >>                  \* flag
VarsE == [t |-> TSTRUCT, kv |-> << KV(<< 112 >>, [t |-> TUINT, n |-> -1]), KV(<< 113 >>, [t |-> TBOOL, b |-> TRUE]) >>]
Seg(v, x, y, sl) == [ver |-> v, x |-> x, y |-> y, hdr |-> [i \in 1..4 |-> IF v > 5 \/ (v > 4 /\ i < 3) THEN 300 + i ELSE 0],
                     layers |-> << >>, dust |-> << >>, props |-> << >>, ents |-> << >>, slack |-> sl]

Mod == IsMod(F.vars)
R == Len(F.regions)
InBd == Len(F.regions[R].bd) = 1
S == IF InBd THEN F.regions[R].bd[1] ELSE F.regions[R].segs[Len(F.regions[R].segs)]
SetS(s) == F' = IF InBd THEN [F EXCEPT !.regions[R].bd = << s >>]
                ELSE [F EXCEPT !.regions[R].segs[Len(F.regions[R].segs)] = s]
NewEnc == NewProps(S.ver, IF InBd THEN FALSE ELSE Mod)

AddTile == \E t \in {TileA, TileB} : \E l \in {19, 3} :
              IF Len(S.layers) > 0 /\ S.layers[Len(S.layers)].l = l
              THEN SetS([S EXCEPT !.layers[Len(S.layers)].tiles = Append(@, t)])
              ELSE SetS([S EXCEPT !.layers = Append(@, [l |-> l, tiles |-> << t >>])])
AddDust == \E q \in {Dust1, Dust2} : SetS([S EXCEPT !.dust = Append(@, q)])
AddProp == \E p \in {IF NewEnc THEN PropNew ELSE PropOld, Placeholder} : SetS([S EXCEPT !.props = Append(@, p)])
AddEnt == \E e \in {Ent(100, NameA, << >>, VarsE), Ent(2147483647, ENTITY, IF S.ver > 7 THEN NameZ ELSE << >>, NoVars), Placeholder} :
             SetS([S EXCEPT !.ents = Append(@, e)])
AddSeg == /\ ~InBd
          /\ \E sl \in {0, 3} : F' = [F EXCEPT !.regions[R].segs = Append(@, Seg(S.ver, 15, 1, sl))]
AddBd == /\ ~InBd /\ F' = [F EXCEPT !.regions[R].bd = << Seg(S.ver, 0, 0, 0) >>]
AddRegion == \E x \in {-1, 300} : F' = [F EXCEPT !.regions = Append(@, [x |-> x, y |-> -32768, segs |-> << Seg(S.ver, 3, 0, 0) >>, bd |-> << >>])]

Init == /\ n = 0
        /\ \E lv \in {43, 44} : \E sv \in 4..8 : \E vs \in {NoVars, ModVars} :
             F = [ver |-> lv, sshot |-> IF lv = 43 THEN << >> ELSE << 137, 80, 0 >>, uid |-> 2147483647, vars |-> vs,
                  regions |-> << [x |-> 0, y |-> 7, segs |-> << Seg(sv, 0, 0, 0) >>, bd |-> << >>] >>]
Next == n < DEPTH /\ n' = n + 1 /\ (AddTile \/ AddDust \/ AddProp \/ AddEnt \/ AddSeg \/ AddBd \/ AddRegion)
Spec == Init /\ [][Next]_<< F, n >>

RoundTrip ==
    LET b == EncLevel(F)
        d == DecLevel(b, << >>)
    IN  d.ok /\ d.exact /\ d.f = F /\ d.h.fsize = Len(b) /\ d.end = Len(b)
        /\ d.h.dir = [i \in 1..Len(d.offs) |-> d.offs[i] - d.h.base]
(* the edge records survive both ways, with the on-disk corner order *)
EdgeCodec ==
    \A i \in 1..Len(S.layers) : \A j \in 1..Len(S.layers[i].tiles) :
        LET d == S.layers[i].tiles[j].d
            sp == SpriteOf(d)
        IN  EncTileBytes(EdgesOf(d, NoDust), sp.ss, sp.sp, sp.st) = d
DustCodec == \A i \in 1..Len(S.dust) :
        LET d == S.dust[i].d IN EncDustBytes(EdgesOf(NoDust, d)) = (IF MutateSwap THEN [d EXCEPT ![5] = d[6]] ELSE d)
Emit == PrintT("J " \o ToJson([bytes |-> EncLevel(F)]))
=============================================================================
