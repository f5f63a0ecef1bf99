------------------------------- MODULE TileQuery -------------------------------
(* What a tile says about itself. A tile is [sh, fl, ss, sp, st, e] as in       *)
(* TileData: sprite set, palette, tile and four edges of twelve fields, of which *)
(* the seventh is the filth sprite set.                                          *)
EXTENDS Naturals, Integers, Sequences, TLC
SetNames == << "none_0", "mansion", "forest", "city", "laboratory", "tutorial", "nexus", "none_7" >>
Dustblock(ss) == << -1, 21, 13, 6, 9, 2, -1, -1 >>[ss + 1]
HasFilth(t) == \E s \in 1..4 : t.e[s][7] # 0
IsDustblock(t) == Dustblock(t.ss) # -1 /\ t.st = Dustblock(t.ss)
CanDustblock(t) == Dustblock(t.ss) # -1
AsDustblock(t) == [t EXCEPT !.st = Dustblock(t.ss), !.sp = 1]
Sprite(t) == << t.ss, t.st, t.sp >>
WithSprite(t, s) == [t EXCEPT !.ss = s[1], !.st = s[2], !.sp = s[3]]
Path(t) == "area/" \o SetNames[t.ss + 1] \o "/tiles/tile" \o ToString(t.st) \o "_" \o ToString(t.sp + 1) \o "_0001.png"
=============================================================================
