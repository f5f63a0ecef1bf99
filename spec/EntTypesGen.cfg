SPECIFICATION Spec
CONSTANTS MaxDefs = 3 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
