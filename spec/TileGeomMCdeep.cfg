SPECIFICATION Spec
CONSTANTS DEPTH = 3
 Mutate = FALSE
INVARIANTS Composition Undone EdgesKept
CHECK_DEADLOCK FALSE
