CONSTANTS ENDMARK = 255
 LENS = {1, 2, 254, 255, 256, 509, 510, 511, 765}
 VALS = {0, 1, 2}
 DEPTH = 3
 INTENT = 6
 Mutate = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS LegalTokens Faithful Decodes OnlyTrailingNeutralDropped FileDecodes
