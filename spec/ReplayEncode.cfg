SPECIFICATION Spec
CONSTANT ENDMARK = 255
CHECK_DEADLOCK FALSE
