SPECIFICATION Spec
INVARIANTS Energy Physical Split Nothing Reverse Fresnel
CHECK_DEADLOCK FALSE
