SPECIFICATION Spec
CONSTANTS DEPTH = 2
 Mutate = TRUE
INVARIANTS Composition Undone EdgesKept
CHECK_DEADLOCK FALSE
