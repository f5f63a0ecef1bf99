SPECIFICATION Spec
CONSTANTS Depth = 4 Emitting = FALSE MutateAlign = TRUE
VIEW View
INVARIANT Coherent
PROPERTY ReadExact
CHECK_DEADLOCK FALSE
