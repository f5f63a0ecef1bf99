SPECIFICATION Spec
CONSTANTS MaxOps = 5 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
