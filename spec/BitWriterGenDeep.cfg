SPECIFICATION Spec
CONSTANTS Depth = 4  MaxPos = 40  Emitting = TRUE  MutateFlush = FALSE  MutateSeek = FALSE
VIEW View
INVARIANTS TypeOK Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
