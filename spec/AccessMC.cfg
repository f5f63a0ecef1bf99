SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS Frame Refusals Typed ReadBack
CHECK_DEADLOCK FALSE
