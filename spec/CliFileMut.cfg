SPECIFICATION Spec
CONSTANTS MaxCmds = 1 Emitting = FALSE Mutate = TRUE
INVARIANTS FailKeeps
CHECK_DEADLOCK FALSE
