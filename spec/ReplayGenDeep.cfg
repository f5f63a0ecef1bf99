CONSTANTS ENDMARK = 255
 LENS = {1, 254, 255, 256, 510}
 VALS = {0, 1, 2}
 DEPTH = 3
 INTENT = 1
 Mutate = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
