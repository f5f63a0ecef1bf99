SPECIFICATION Spec
CONSTANTS MaxOps = 5 Emitting = FALSE Mutate = FALSE
INVARIANTS Frame Refusals Typed ReadBack
CHECK_DEADLOCK FALSE
