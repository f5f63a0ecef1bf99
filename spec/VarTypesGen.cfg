SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS MaxOps = 3
Emitting = TRUE
Mutate = FALSE
CHECK_DEADLOCK FALSE
