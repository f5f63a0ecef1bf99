SPECIFICATION Spec
CONSTANTS MAXW = 65535 MaxDepth = 3 MaxMembers = 2 Emitting = TRUE Rich = FALSE Offs = {0, 3}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
