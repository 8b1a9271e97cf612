SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = TRUE
 Cutoff = TRUE
 Works = {"cross", "shift", "film"}
 MaxAlts = 1
CHECK_DEADLOCK FALSE
