SPECIFICATION Spec
CONSTANTS MAXW = 65535 MaxDepth = 2 MaxMembers = 2 Emitting = TRUE Rich = FALSE Offs = {5}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
