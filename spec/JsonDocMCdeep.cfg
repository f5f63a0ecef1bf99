SPECIFICATION Spec
CONSTANTS MAXW = 65535 Emitting = FALSE Deep = TRUE Mutate = FALSE
INVARIANTS Faithful Refusals NeverBroken Accepted
CHECK_DEADLOCK FALSE
