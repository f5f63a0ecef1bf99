SPECIFICATION Spec
CONSTANTS Deep = TRUE Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
