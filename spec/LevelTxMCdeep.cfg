SPECIFICATION Spec
CONSTANTS DEPTH = 2
 SHAPES = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
 SHIFTS = {0, 3}
 FACTORS = {1}
 MaxFactor = 2
 Mutate = FALSE
INVARIANTS CellsDistinct AreaKept MarkCarried Composed Restored
CHECK_DEADLOCK FALSE
