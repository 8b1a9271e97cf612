SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Menu <- Wide
 Backends = {0, 2}
 Len0 = 14
CHECK_DEADLOCK FALSE
