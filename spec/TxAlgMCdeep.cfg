INIT Init
NEXT Next
CONSTANTS LIN = {2, 3, 4, 5}
 OFF = {0, 3, 4}
 Mutate = FALSE
INVARIANTS Composes Neutral TranslateIsProduct ScalarScales DetMult
CHECK_DEADLOCK FALSE
