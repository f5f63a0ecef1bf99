SPECIFICATION Spec
CONSTANTS Depth = 4 Emitting = TRUE MutateAlign = FALSE
VIEW View
INVARIANT Coherent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
