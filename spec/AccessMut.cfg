SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emitting = FALSE Mutate = TRUE
INVARIANTS Frame Refusals Typed ReadBack
CHECK_DEADLOCK FALSE
