SPECIFICATION Spec
CONSTANTS Rounds = 0 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
