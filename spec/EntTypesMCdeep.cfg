SPECIFICATION Spec
CONSTANTS MaxDefs = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS Agrees Others
CHECK_DEADLOCK FALSE
