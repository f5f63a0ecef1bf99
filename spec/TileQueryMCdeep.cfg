SPECIFICATION Spec
CONSTANTS MaxOps = 2 Emitting = FALSE Mutate = FALSE
INVARIANTS BlockWorks Clean NeverNone
CHECK_DEADLOCK FALSE
