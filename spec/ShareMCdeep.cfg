SPECIFICATION Spec
INVARIANTS Disjoint Independent CopyAlike
CONSTANTS MaxObj = 4
MaxOps = 6
Emitting = FALSE
Mutate = FALSE
CHECK_DEADLOCK FALSE
