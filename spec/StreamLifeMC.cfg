SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS Complete Ownership Prefix
PROPERTIES Released
CHECK_DEADLOCK FALSE
