SPECIFICATION TSpec
CONSTANT MaxFactor = 4
CHECK_DEADLOCK FALSE
