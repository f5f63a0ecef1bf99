SPECIFICATION Spec
INVARIANTS Deep Order
CONSTANTS MaxOps = 4
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
