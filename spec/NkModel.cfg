SPECIFICATION Spec
CONSTANTS
 W = {1, 2, 4, 5}
 V = {10000, 15000, 30000}
 M = 4
INVARIANTS Bracket Agrees OnRow Bounded
CHECK_DEADLOCK FALSE
