SPECIFICATION Spec
CONSTANTS
 Backends = {2}
 Kinds = {"2d"}
 Lossy = TRUE
 Fts = {0, 1, 2}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxAct = 1
 What = "draw"
CHECK_DEADLOCK FALSE
