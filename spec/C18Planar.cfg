SPECIFICATION Spec
CONSTANTS
 Backends = {2}
 Kinds = {"1d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolPure
 Thin = FALSE
 Cutoff = FALSE
 What = "planar"
CHECK_DEADLOCK FALSE
