SPECIFICATION Spec
CONSTANTS DEPTH = 1
 SHAPES = {0, 1}
 SHIFTS = {2, 3}
 FACTORS = {1}
 MaxFactor = 2
 Mutate = TRUE
INVARIANTS CellsDistinct AreaKept MarkCarried Composed Restored
CHECK_DEADLOCK FALSE
