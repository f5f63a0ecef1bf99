SPECIFICATION Spec
CONSTANTS MAXW = 65535 Emitting = TRUE Deep = FALSE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
