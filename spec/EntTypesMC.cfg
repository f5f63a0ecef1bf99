SPECIFICATION Spec
CONSTANTS MaxDefs = 3 Emitting = FALSE Mutate = FALSE
INVARIANTS Agrees Others
CHECK_DEADLOCK FALSE
