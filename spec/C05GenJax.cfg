SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Menu <- Narrow
 Backends = {1}
 Len0 = 8
CHECK_DEADLOCK FALSE
