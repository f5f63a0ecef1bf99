SPECIFICATION Spec
INVARIANTS Determined Looking
CONSTANTS NObj = 2
MaxOps = 5
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
