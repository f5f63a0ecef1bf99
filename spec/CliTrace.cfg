SPECIFICATION TSpec
CONSTANT MAXW = 65535
CHECK_DEADLOCK FALSE
