SPECIFICATION Spec
CONSTANTS Depth = 4 Emitting = FALSE MutateAlign = FALSE
VIEW View
INVARIANT Coherent
PROPERTY ReadExact
CHECK_DEADLOCK FALSE
