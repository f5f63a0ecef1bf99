CONSTANTS MAXW = 65535
 DEPTH = 4
 MutateSwap = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip EdgeCodec DustCodec
