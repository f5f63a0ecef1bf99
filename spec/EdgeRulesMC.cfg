SPECIFICATION Spec
CONSTANTS CENTER = {0, 1, 14, 18}
 AROUND = {99, 0, 2, 9, 17, 20}
 LOOKS = {0, 1}
 FILTH = {1}
 Mutate = FALSE
INVARIANTS SolidIsVisible NoDoubleWalls OutlineSolid Stable OneJoiner CapOrJoin Mirrored
CHECK_DEADLOCK FALSE
