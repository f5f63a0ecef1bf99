SPECIFICATION Spec
INVARIANTS Deep Order
CONSTANTS MaxOps = 6
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
