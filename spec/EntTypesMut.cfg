SPECIFICATION Spec
CONSTANTS MaxDefs = 3 Emitting = FALSE Mutate = TRUE
INVARIANTS Agrees Others
CHECK_DEADLOCK FALSE
