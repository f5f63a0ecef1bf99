SPECIFICATION Spec
CONSTANTS MaxCmds = 4 Emitting = FALSE Mutate = FALSE
INVARIANTS Exact FailKeeps RegionsKept ExtractKeepsLevel NoOverwrite
CHECK_DEADLOCK FALSE
