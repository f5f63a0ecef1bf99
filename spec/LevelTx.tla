------------------------------- MODULE LevelTx -------------------------------
(* Moving a whole level by one similarity of the plane, M = [k, g, x, y]:        *)
(*      v |-> k * (g v) + (x, y)                                                 *)
(* with g a symmetry of the square, k a whole factor and lengths in 1/8 pixel.   *)
(*                                                                              *)
(* tile  = [l, x, y, sh, fl, ss, sp, st, e]           cell (x, y) of the grid     *)
(* prop  = [id, l, sub, px, py, lg, rot, fx, fy, set, grp, idx, pal]              *)
(* ent   = [id, nm, px, py, rot, l, fx, fy, vis, vars]   vars: name -> value      *)
EXTENDS TileUp
TILE == 384                    \* 48 pixels
Img(M, v) == << M.k * (M.g[1] * v[1] + M.g[2] * v[2]) + M.x, M.k * (M.g[3] * v[1] + M.g[4] * v[2]) + M.y >>
ImgLin(M, v) == << M.k * (M.g[1] * v[1] + M.g[2] * v[2]), M.k * (M.g[3] * v[1] + M.g[4] * v[2]) >>
MIdent == [k |-> 1, g |-> << 1, 0, 0, 1 >>, x |-> 0, y |-> 0]
After(N, M) == LET t == Img(N, << M.x, M.y >>) IN [k |-> N.k * M.k, g |-> SymMul(N.g, M.g), x |-> t[1], y |-> t[2]]
Lesser(a, b) == IF a < b THEN a ELSE b

(* ---- tiles ---- *)
(* how many whole cells a shift is worth: the nearest, either one at a tie *)
Whole(s) == LET q == s \div TILE
                r == s % TILE
            IN  IF 2 * r < TILE THEN {q} ELSE IF 2 * r > TILE THEN {q + 1} ELSE {q, q + 1}
Corner(M, c) ==                \* top left cell of the image of cell c, without the shift
    LET a == ImgLin(M, c)
        b == ImgLin(M, << c[1] + 1, c[2] + 1 >>)
    IN  << Lesser(a[1], b[1]), Lesser(a[2], b[2]) >>
CanonTile(t) == [t EXCEPT !.e = [i \in 1..4 |-> IF i - 1 \in EdgesOn(t.sh) THEN t.e[i] ELSE Blank]]
Pieces(t, M, ox, oy) ==
    LET o == Corner(M, << t.x, t.y >>)
        tt == TxTile(t, M.g)
        piece(c) == LET u == IF M.k = 1 THEN tt ELSE UpTile(tt, M.k, c[1], c[2])
                    IN  [l |-> t.l, x |-> o[1] + ox + c[1], y |-> o[2] + oy + c[2], sh |-> u.sh, fl |-> t.fl, ss |-> t.ss, sp |-> t.sp, st |-> t.st, e |-> u.e]
    IN  {piece(c) : c \in IF M.k = 1 THEN {<< 0, 0 >>} ELSE UpCells(tt.sh, M.k)}
TilesImage(S, M, ox, oy) == UNION {Pieces(t, M, ox, oy) : t \in S}
TilesMoved(S, M, R) == \E ox \in Whole(M.x), oy \in Whole(M.y) : {CanonTile(t) : t \in R} = {CanonTile(t) : t \in TilesImage(S, M, ox, oy)}

(* ---- orientation: drawn as a clockwise turn after an optional mirroring ---- *)
Quarter(i) == << << 1, 0, 0, 1 >>, << 0, -1, 1, 0 >>, << -1, 0, 0, -1 >>, << 0, 1, -1, 0 >> >>[i + 1]
Flips(g) == SymDet(g) < 0
Turns(g) == LET r == IF Flips(g) THEN SymMul(g, << -1, 0, 0, 1 >>) ELSE g IN CHOOSE i \in 0..3 : Quarter(i) = r
ASSUME \A g \in Sym : \E i \in 0..3 : Quarter(i) = IF Flips(g) THEN SymMul(g, << -1, 0, 0, 1 >>) ELSE g
Drawn(o) == [a |-> (o.rot + (IF o.fy = 1 THEN 32768 ELSE 0)) % 65536, m |-> (o.fx + o.fy) % 2]
DrawnImage(g, d) == [a |-> (16384 * Turns(g) + (IF Flips(g) THEN 65536 - d.a ELSE d.a)) % 65536, m |-> (d.m + (IF Flips(g) THEN 1 ELSE 0)) % 2]

(* ---- values owned by entities ---- *)
Eighth == 268435456            \* 2^28: an eighth in 31-bit fractions
ToU(i, f) == 8 * i + f \div Eighth
Flt(u) == [t |-> 4, i |-> u \div 8, f |-> (u % 8) * Eighth]
Vec(p) == [t |-> 10, xi |-> p[1] \div 8, xf |-> (p[1] % 8) * Eighth, yi |-> p[2] \div 8, yf |-> (p[2] % 8) * Eighth]
IntV(n) == [t |-> 2, n |-> n]
NoVecs == [t |-> 15, et |-> 10, a |-> << >>]
Hittable == {"dust_girl", "dust_kid", "dust_man", "dust_worth", "dust_wraith", "enemy_bear", "enemy_book", "enemy_butler", "enemy_chest_scrolls",
    "enemy_chest_treasure", "enemy_critter", "enemy_door", "enemy_flag", "enemy_gargoyle_big", "enemy_gargoyle_small", "enemy_hawk", "enemy_key",
    "enemy_knight", "enemy_maid", "enemy_porcupine", "enemy_scrolls", "enemy_slime_ball", "enemy_slime_barrel", "enemy_slime_beast",
    "enemy_spring_ball", "enemy_stoneboss", "enemy_stonebro", "enemy_trash_ball", "enemy_trash_beast", "enemy_trash_can", "enemy_trash_tire",
    "enemy_treasure", "enemy_tutorial_hexagon", "enemy_tutorial_square", "enemy_wolf", "hittable_apple", "leaf_sprite", "slime_boss", "trash_king"}
(* variables of a type that describe places or sizes, with the value a missing one stands for *)
Defaults(nm) ==
    (IF nm \in {"check_point", "level_end_prox"} THEN [trigger_area |-> NoVecs]
     ELSE IF nm = "AI_controller" THEN [nodes |-> NoVecs]
     ELSE IF nm = "kill_box" THEN [width |-> IntV(0), height |-> IntV(0)]
     ELSE IF nm = "camera_node" THEN [zoom_h |-> IntV(1080), width |-> IntV(520)]
     ELSE IF nm = "enemy_key" THEN [lastKnowX |-> Flt(0), lastKnowY |-> Flt(0), dm_scale |-> Flt(8)]
     ELSE IF nm \in Hittable THEN [dm_scale |-> Flt(8)]
     ELSE [none \in {} |-> 0])
Filled(nm, V) == V @@ Defaults(nm)
PairOf(v) == << ToU(v.xi, v.xf), ToU(v.yi, v.yf) >>
MapVecs(arr, F(_)) == [arr EXCEPT !.a = [i \in 1..Len(arr.a) |-> Vec(F(PairOf(arr.a[i])))]]
VarsImage(nm, V, M) ==
    LET F == Filled(nm, V)
        whole(p) == Img(M, p)
        lin(p) == ImgLin(M, p)
        val(k) ==
            IF nm \in {"check_point", "level_end_prox"} /\ k = "trigger_area" THEN MapVecs(F[k], lin)
            ELSE IF nm = "AI_controller" /\ k = "nodes" THEN MapVecs(F[k], whole)
            ELSE IF nm = "kill_box" /\ k \in {"width", "height"}
                 THEN LET d == ImgLin(M, << F["width"].n, F["height"].n >>) IN IntV(AbsZ(IF k = "width" THEN d[1] ELSE d[2]))
            ELSE IF nm = "camera_node" /\ k \in {"zoom_h", "width"} THEN IntV(M.k * F[k].n)
            ELSE IF nm = "enemy_key" /\ k \in {"lastKnowX", "lastKnowY"}
                 THEN LET p == Img(M, << ToU(F["lastKnowX"].i, F["lastKnowX"].f), ToU(F["lastKnowY"].i, F["lastKnowY"].f) >>)
                      IN  Flt(IF k = "lastKnowX" THEN p[1] ELSE p[2])
            ELSE IF nm \in Hittable /\ k = "dm_scale" THEN Flt(M.k * ToU(F[k].i, F[k].f))
            ELSE F[k]
    IN  [k \in DOMAIN F |-> val(k)]

(* ---- props and entities; orientation compared as drawn ---- *)
PropImage(p, M) == LET q == Img(M, << p.px, p.py >>) IN
    [id |-> p.id, l |-> p.l, px |-> q[1], py |-> q[2], drawn |-> DrawnImage(M.g, Drawn(p)), look |-> << p.sub, p.lg, p.set, p.grp, p.idx, p.pal >>]
PropSeen(p) == [id |-> p.id, l |-> p.l, px |-> p.px, py |-> p.py, drawn |-> Drawn(p), look |-> << p.sub, p.lg, p.set, p.grp, p.idx, p.pal >>]
EntPlace(e, M) == LET q == Img(M, << e.px, e.py >>) IN [id |-> e.id, px |-> q[1], py |-> q[2]]
EntSeen(e) == [id |-> e.id, px |-> e.px, py |-> e.py]
EntRest(e) == [id |-> e.id, nm |-> e.nm, l |-> e.l, vis |-> e.vis]
(* a player start, in whole pixels, is a nearest one *)
StartMoved(p, M, q) == LET i == Img(M, << 8 * p[1], 8 * p[2] >>) IN AbsZ(8 * q[1] - i[1]) <= 4 /\ AbsZ(8 * q[2] - i[2]) <= 4
=============================================================================
