SPECIFICATION TSpec
CONSTANTS MutateFlush = FALSE  MutateSeek = FALSE
CHECK_DEADLOCK FALSE
