SPECIFICATION TSpec
CONSTANT MaxFactor = 16
CHECK_DEADLOCK FALSE
