SPECIFICATION Spec
CONSTANTS MaxOps = 1 Emitting = FALSE Mutate = FALSE
INVARIANTS BlockWorks Clean NeverNone
CHECK_DEADLOCK FALSE
