SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS MaxObj = 3
MaxOps = 5
Emitting = TRUE
Mutate = FALSE
CHECK_DEADLOCK FALSE
