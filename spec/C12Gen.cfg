SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 MaxFill = 5
CHECK_DEADLOCK FALSE
