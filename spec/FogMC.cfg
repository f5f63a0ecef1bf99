SPECIFICATION Spec
CONSTANTS Rounds = 1 Emitting = FALSE Mutate = FALSE
INVARIANTS Lengths Declared Covered Idempotent
CHECK_DEADLOCK FALSE
