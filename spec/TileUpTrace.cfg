SPECIFICATION TSpec
CONSTANT MaxFactor = 8
CHECK_DEADLOCK FALSE
