SPECIFICATION Spec
CONSTANTS
 R = 3
 C = 3
 MaxN = 2
INVARIANTS Sorted Shows
CHECK_DEADLOCK FALSE
