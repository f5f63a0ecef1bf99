CONSTANTS MAXW = 65535
 DEPTH = 2
 MutateSwap = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip EdgeCodec DustCodec
