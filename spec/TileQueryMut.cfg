SPECIFICATION Spec
CONSTANTS MaxOps = 1 Emitting = FALSE Mutate = TRUE
INVARIANTS BlockWorks Clean NeverNone
CHECK_DEADLOCK FALSE
