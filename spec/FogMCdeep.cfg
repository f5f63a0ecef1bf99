SPECIFICATION Spec
CONSTANTS Rounds = 3 Emitting = FALSE Mutate = FALSE
INVARIANTS Lengths Declared Covered Idempotent
CHECK_DEADLOCK FALSE
