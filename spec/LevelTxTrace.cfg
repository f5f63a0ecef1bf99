SPECIFICATION TSpec
CONSTANT MaxFactor = 1
CHECK_DEADLOCK FALSE
