SPECIFICATION Spec
CONSTANTS
 Coefs = {"-1", "0", "2"}
 Starts = {"0", "3/2"}
 Rate = "1/10"
 MaxLen = 1
INVARIANTS Exact Asked Composed Repeat Downhill
CHECK_DEADLOCK FALSE
