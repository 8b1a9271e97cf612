SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {1}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxAlts = 2
 KJax = TRUE
CHECK_DEADLOCK FALSE
