SPECIFICATION Spec
CONSTANTS DEPTH = 2
 SHAPES = {1}
 SHIFTS = {2, 3}
 FACTORS = {1}
 MaxFactor = 2
 Mutate = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
