SPECIFICATION Spec
CONSTANTS MAXW = 65535 Emitting = FALSE Deep = FALSE Mutate = TRUE
INVARIANTS Faithful Refusals NeverBroken Accepted
CHECK_DEADLOCK FALSE
