SPECIFICATION Spec
CONSTANTS
 Backends = {2}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxAct = 1
 What = "axes"
CHECK_DEADLOCK FALSE
