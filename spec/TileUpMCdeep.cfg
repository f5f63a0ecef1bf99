SPECIFICATION Spec
CONSTANTS DEPTH = 1
 MaxFactor = 6
 MutateTrim = FALSE
INVARIANTS AreaScales UpCommutes CornersOnce
CHECK_DEADLOCK FALSE
