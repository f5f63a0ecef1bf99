SPECIFICATION Spec
CONSTANTS DEPTH = 2
 Mutate = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
