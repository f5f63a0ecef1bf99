SPECIFICATION Spec
CONSTANTS MaxScores = 3 Emitting = FALSE Mutate = FALSE
INVARIANTS EveryScore OnlyScores Sorted Keys Balance
CHECK_DEADLOCK FALSE
