SPECIFICATION Spec
CONSTANTS
 Rays <- RayDirs
 MaxR = 13
INVARIANTS BothWays Mirror Slope Passive OnAxis Occupied
CHECK_DEADLOCK FALSE
