SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Len0 = 9
 Few = FALSE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
