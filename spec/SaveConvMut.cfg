SPECIFICATION Spec
CONSTANTS MaxScores = 1 Emitting = FALSE Mutate = TRUE
INVARIANTS EveryScore OnlyScores Sorted Keys Balance
CHECK_DEADLOCK FALSE
