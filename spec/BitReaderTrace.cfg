SPECIFICATION TSpec
CONSTANTS MutateAlign = FALSE
CHECK_DEADLOCK FALSE
