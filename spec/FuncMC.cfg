SPECIFICATION Spec
INVARIANTS Determined Looking
CONSTANTS NObj = 2
MaxOps = 4
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
