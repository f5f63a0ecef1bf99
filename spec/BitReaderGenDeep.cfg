SPECIFICATION Spec
CONSTANTS Depth = 6 Emitting = TRUE MutateAlign = FALSE
VIEW View
INVARIANT Coherent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
