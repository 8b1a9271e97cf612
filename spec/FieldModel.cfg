SPECIFICATION Spec
CONSTANTS Steps = 5
INVARIANTS Curl Level Power Wave
CHECK_DEADLOCK FALSE
