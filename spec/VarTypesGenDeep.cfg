SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS MaxOps = 4
Emitting = TRUE
Mutate = FALSE
CHECK_DEADLOCK FALSE
