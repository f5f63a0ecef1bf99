SPECIFICATION Spec
CONSTANTS DEPTH = 2
 SHAPES = {0, 1, 4, 10, 17}
 SHIFTS = {2, 3}
 FACTORS = {1}
 MaxFactor = 2
 Mutate = FALSE
INVARIANTS CellsDistinct AreaKept MarkCarried Composed Restored
CHECK_DEADLOCK FALSE
