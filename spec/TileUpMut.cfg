SPECIFICATION Spec
CONSTANTS DEPTH = 0
 MaxFactor = 2
 MutateTrim = TRUE
INVARIANTS AreaScales UpCommutes CornersOnce
CHECK_DEADLOCK FALSE
