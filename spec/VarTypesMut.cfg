SPECIFICATION Spec
INVARIANTS Deep
CONSTANTS MaxOps = 4
Emitting = FALSE
Mutate = TRUE
CHECK_DEADLOCK FALSE
