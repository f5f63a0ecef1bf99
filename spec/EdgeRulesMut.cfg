SPECIFICATION Spec
CONSTANTS CENTER = {0}
 AROUND = {99, 0, 2, 17}
 LOOKS = {0}
 FILTH = {1}
 Mutate = TRUE
INVARIANTS SolidIsVisible NoDoubleWalls OutlineSolid Stable OneJoiner CapOrJoin Mirrored
CHECK_DEADLOCK FALSE
