SPECIFICATION Spec
CONSTANTS DEPTH = 2
 SHAPES = {1}
 SHIFTS = {3}
 FACTORS = {1, 2}
 MaxFactor = 4
 Mutate = FALSE
INVARIANTS CellsDistinct AreaKept MarkCarried Composed Restored
CHECK_DEADLOCK FALSE
