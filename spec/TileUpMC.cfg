SPECIFICATION Spec
CONSTANTS DEPTH = 0
 MaxFactor = 4
 MutateTrim = FALSE
INVARIANTS AreaScales UpCommutes CornersOnce
CHECK_DEADLOCK FALSE
