SPECIFICATION Spec
INVARIANT Inv
CONSTANTS DEPTH = 5
Mutate = FALSE
CHECK_DEADLOCK FALSE
