SPECIFICATION Spec
CONSTANTS Depth = 7 Emitting = FALSE MutateAlign = FALSE
VIEW View
INVARIANT Coherent
PROPERTY ReadExact
CHECK_DEADLOCK FALSE
