SPECIFICATION Spec
CONSTANTS Deep = FALSE Emitting = FALSE Mutate = FALSE
INVARIANTS Reflexive Symmetric Transitive Normal HashAgrees
CHECK_DEADLOCK FALSE
