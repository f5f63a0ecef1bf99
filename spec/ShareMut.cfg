SPECIFICATION Spec
INVARIANTS Independent
CONSTANTS MaxObj = 3
MaxOps = 5
Emitting = FALSE
Mutate = TRUE
CHECK_DEADLOCK FALSE
