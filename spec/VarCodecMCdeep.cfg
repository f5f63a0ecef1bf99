SPECIFICATION Spec
CONSTANTS MAXW = 2 MaxDepth = 3 MaxMembers = 2 Emitting = FALSE Rich = FALSE Offs = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANTS RoundTrip NonVacuous
CHECK_DEADLOCK FALSE
