-------------------------------- MODULE Names --------------------------------
(* The numbers of the file formats that have names, and the published tile     *)
(* tables, which are derived here from the outlines of the shapes (TileGeom).   *)
EXTENDS TileGeom
N(n, v) == [n |-> n, v |-> v]
Enums == [
  LevelType |-> { N("NORMAL", 0), N("NEXUS", 1), N("NEXUS_MP", 2), N("KOTH", 3), N("SURVIVAL", 4), N("DUSTMOD", 6) },
  VariableType |-> { N("NULL", 0), N("BOOL", 1), N("INT", 2), N("UINT", 3), N("FLOAT", 4), N("STRING", 5), N("VEC2", 10), N("STRUCT", 14), N("ARRAY", 15) },
  TileSpriteSet |-> { N("NONE_0", 0), N("MANSION", 1), N("FOREST", 2), N("CITY", 3), N("LABORATORY", 4), N("TUTORIAL", 5), N("NEXUS", 6), N("NONE_7", 7) },
  TileSide |-> { N("TOP", 0), N("BOTTOM", 1), N("LEFT", 2), N("RIGHT", 3) },
  TileShape |-> { N("FULL", 0), N("HALF_A", 17), N("HALF_B", 18), N("HALF_C", 19), N("HALF_D", 20) }
                \cup { N("BIG_" \o ToString(i), 2 * i - 1) : i \in 1..8 } \cup { N("SMALL_" \o ToString(i), 2 * i) : i \in 1..8 },
  IntentStream |-> { N("X", 0), N("Y", 1), N("JUMP", 2), N("DASH", 3), N("FALL", 4), N("LIGHT", 5), N("HEAVY", 6), N("TAUNT", 7), N("MOUSE_X", 8), N("MOUSE_Y", 9), N("MOUSE_STATE", 10) },
  MouseState |-> { N("WHEEL_UP", 1), N("WHEEL_DOWN", 2), N("LEFT_CLICK", 4), N("RIGHT_CLICK", 8), N("MIDDLE_CLICK", 16) },
  Character |-> { N("DUSTMAN", 0), N("DUSTGIRL", 1), N("DUSTKID", 2), N("DUSTWORTH", 3), N("SLIMEBOSS", 4), N("TRASHKING", 5), N("LEAFSPRITE", 6), N("DUSTWRAITH", 7) },
  CameraNodeType |-> { N("NORMAL", 1), N("DETACH", 2), N("CONNECT", 3), N("INTEREST", 4), N("FORCE_CONNECT", 5) } ]
EnumNames == DOMAIN Enums
(* names are numbers of one thing only *)
ASSUME \A e \in EnumNames : \A a, b \in Enums[e] : (a.n = b.n \/ a.v = b.v) => a = b
ASSUME \A a \in Enums["MouseState"] : \A b \in Enums["MouseState"] : a = b \/ a.v \div b.v # 1

(* ---- the sides of a shape, in the documented order, derived from its outline ---- *)
Opp(s) == << 1, 0, 3, 2 >>[s + 1]
Slope(sh, s) == EdgeA(sh, s)[1] # EdgeB(sh, s)[1] /\ EdgeA(sh, s)[2] # EdgeB(sh, s)[2]
Diagonal(sh) == CHOOSE s \in EdgesOn(sh) : Slope(sh, s)
ByIndex(i) == CHOOSE s \in 0..3 : CwIndex[s + 1] = i % 4
RECURSIVE Around4(_, _, _)
Around4(sh, i, n) == IF n = 0 THEN << >> ELSE (IF ByIndex(i) \in EdgesOn(sh) THEN << ByIndex(i) >> ELSE << >>) \o Around4(sh, i + 1, n - 1)
Clockwise(sh, s) == Around4(sh, CwIndex[s + 1], 4)        \* the edges the shape has, clockwise from s
Big(sh) == sh \in {1, 3, 5, 7, 9, 11, 13, 15}
OrderedSides(sh) ==
    IF sh = 0 THEN Clockwise(sh, 0)
    ELSE LET d == Diagonal(sh) IN
         IF Big(sh) THEN << d, Opp(d) >> \o << CHOOSE s \in EdgesOn(sh) : s # d /\ s # Opp(d) >>
         ELSE Clockwise(sh, d)
Dustblocks == << -1, 21, 13, 6, 9, 2, -1, -1 >>
=============================================================================
