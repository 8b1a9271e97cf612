SPECIFICATION Spec
CONSTANTS
 RMax = 3
 CMax = 3
INVARIANTS DrawnRight RefinedRight Commutes
CHECK_DEADLOCK FALSE
