SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"1d", "2d"}
 Lossy = TRUE
 Fts = {1}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxBox = 4
 What = "paint"
CHECK_DEADLOCK FALSE
