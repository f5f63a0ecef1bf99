SPECIFICATION Spec
CONSTANTS DEPTH = 2
 Mutate = FALSE
INVARIANTS Composition Undone EdgesKept
CHECK_DEADLOCK FALSE
