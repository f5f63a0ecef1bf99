SPECIFICATION Spec
INVARIANTS Disjoint Independent CopyAlike
CONSTANTS MaxObj = 3
MaxOps = 5
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
