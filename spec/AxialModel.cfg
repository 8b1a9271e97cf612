SPECIFICATION Spec
CONSTANTS
 Ns = {150000, 200000, 348000}
 Kts = {"0", "0.4", "1.1"}
 MaxL = 1
INVARIANTS Energy Reduces Blind
CHECK_DEADLOCK FALSE
