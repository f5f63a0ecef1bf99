SPECIFICATION Spec
CONSTANTS ET = 2 WRONGT = 3 Values = {0, 1} MaxLen = 3 MaxOps = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS View Typed Reads
CHECK_DEADLOCK FALSE
