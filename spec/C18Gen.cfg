SPECIFICATION Spec
CONSTANTS
 Backends = {2}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 What = "any"
CHECK_DEADLOCK FALSE
