SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Kinds = {"1d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = TRUE
 MaxAlts = 3
CHECK_DEADLOCK FALSE
