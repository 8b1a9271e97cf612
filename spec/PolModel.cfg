SPECIFICATION Spec
INVARIANTS LastWins Inverse RunsSame Weights Ends
CHECK_DEADLOCK FALSE
