SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Len0 = 6
 Few = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
