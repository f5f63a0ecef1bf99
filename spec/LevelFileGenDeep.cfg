CONSTANTS MAXW = 65535
 DEPTH = 3
 MutateSwap = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
