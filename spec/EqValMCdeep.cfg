SPECIFICATION Spec
CONSTANTS Deep = TRUE Emitting = FALSE Mutate = FALSE
INVARIANTS Reflexive Symmetric Transitive Normal HashAgrees
CHECK_DEADLOCK FALSE
