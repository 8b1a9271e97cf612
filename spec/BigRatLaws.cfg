SPECIFICATION Spec
INVARIANTS Field Order Trans
CHECK_DEADLOCK FALSE
