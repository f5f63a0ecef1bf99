SPECIFICATION Spec
CONSTANTS MaxCmds = 2 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
