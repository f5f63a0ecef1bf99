SPECIFICATION Spec
INVARIANT Inv
CONSTANTS DEPTH = 3
Mutate = TRUE
CHECK_DEADLOCK FALSE
