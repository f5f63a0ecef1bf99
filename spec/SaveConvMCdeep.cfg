SPECIFICATION Spec
CONSTANTS MaxScores = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS EveryScore OnlyScores Sorted Keys Balance
CHECK_DEADLOCK FALSE
