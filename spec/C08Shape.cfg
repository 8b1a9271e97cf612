SPECIFICATION Spec
CONSTANTS
 Backends = {0, 1, 2}
 Kinds = {"2d"}
 Lossy = TRUE
 Fts = {1}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxBox = 4
 What = "shape"
CHECK_DEADLOCK FALSE
