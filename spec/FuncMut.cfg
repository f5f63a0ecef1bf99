SPECIFICATION Spec
INVARIANTS Determined
CONSTANTS NObj = 2
MaxOps = 4
Emitting = FALSE
Mutate = TRUE
CHECK_DEADLOCK FALSE
