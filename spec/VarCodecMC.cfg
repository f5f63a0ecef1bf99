SPECIFICATION Spec
CONSTANTS MAXW = 2 MaxDepth = 2 MaxMembers = 2 Emitting = FALSE Rich = TRUE Offs = {0, 3}
INVARIANTS RoundTrip NonVacuous
CHECK_DEADLOCK FALSE
