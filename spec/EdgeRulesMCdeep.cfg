SPECIFICATION Spec
CONSTANTS CENTER = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
 AROUND = {99, 0, 1, 2, 5, 8, 9, 10, 13, 17, 20}
 LOOKS = {0, 1}
 FILTH = {1}
 Mutate = FALSE
INVARIANTS SolidIsVisible NoDoubleWalls OutlineSolid Stable OneJoiner CapOrJoin Mirrored
CHECK_DEADLOCK FALSE
