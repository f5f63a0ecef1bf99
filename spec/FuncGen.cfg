SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS NObj = 2
MaxOps = 4
Emitting = TRUE
Mutate = FALSE
CHECK_DEADLOCK FALSE
