SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
