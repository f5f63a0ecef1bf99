SPECIFICATION Spec
CONSTANTS DEPTH = 3
 EXPL = {100, 3}
 Mutate = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
