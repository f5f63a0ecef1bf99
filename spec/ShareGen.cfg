SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS MaxObj = 3
MaxOps = 4
Emitting = TRUE
Mutate = FALSE
CHECK_DEADLOCK FALSE
