SPECIFICATION Spec
CONSTANTS Depth = 4  MaxPos = 40  Emitting = FALSE  MutateFlush = FALSE  MutateSeek = FALSE
VIEW View
INVARIANTS TypeOK Refines
PROPERTY Exact
CHECK_DEADLOCK FALSE
