SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"1d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolPure
 Thin = FALSE
 Cutoff = FALSE
CHECK_DEADLOCK FALSE
