SPECIFICATION Spec
CONSTANTS Deep = FALSE Emitting = FALSE Mutate = TRUE
INVARIANTS Reflexive Symmetric Transitive Normal HashAgrees
CHECK_DEADLOCK FALSE
