SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 V = {0, 1, 2, 5}
INVARIANTS Right Partial InPlace
CHECK_DEADLOCK FALSE
