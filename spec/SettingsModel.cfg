SPECIFICATION Spec
CONSTRAINT Depth
INVARIANTS Same Consistent WellFormed Stable Took
CHECK_DEADLOCK FALSE
