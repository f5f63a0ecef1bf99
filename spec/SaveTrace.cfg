SPECIFICATION TSpec
CONSTANTS MAXW = 65535
CHECK_DEADLOCK FALSE
