SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = TRUE
CHECK_DEADLOCK FALSE
