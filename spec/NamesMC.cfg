SPECIFICATION Spec
INVARIANT Inv
CONSTANTS DEPTH = 3
Mutate = FALSE
CHECK_DEADLOCK FALSE
