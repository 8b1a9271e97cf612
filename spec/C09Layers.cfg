SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = TRUE
 MaxOps = 2
CHECK_DEADLOCK FALSE
