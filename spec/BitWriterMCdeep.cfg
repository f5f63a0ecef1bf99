SPECIFICATION Spec
CONSTANTS Depth = 6  MaxPos = 56  Emitting = FALSE  MutateFlush = FALSE  MutateSeek = FALSE
VIEW View
INVARIANTS TypeOK Refines
PROPERTY Exact
CHECK_DEADLOCK FALSE
