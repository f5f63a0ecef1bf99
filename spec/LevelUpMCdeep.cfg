SPECIFICATION Spec
CONSTANTS DEPTH = 2
 SHAPES = {2, 3, 9, 18}
 SHIFTS = {3}
 FACTORS = {1, 2, 3}
 MaxFactor = 9
 Mutate = FALSE
INVARIANTS CellsDistinct AreaKept MarkCarried Composed Restored
CHECK_DEADLOCK FALSE
