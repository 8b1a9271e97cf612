SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
CHECK_DEADLOCK FALSE
