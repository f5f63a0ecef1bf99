SPECIFICATION Spec
CONSTANTS ET = 2 WRONGT = 3 Values = {0, 1} MaxLen = 2 MaxOps = 3 Emitting = TRUE Mutate = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
