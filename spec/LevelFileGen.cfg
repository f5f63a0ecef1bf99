CONSTANTS MAXW = 65535
 DEPTH = 2
 MutateSwap = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
