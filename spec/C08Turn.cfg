SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"2d"}
 Lossy = TRUE
 Fts = {1}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
 MaxBox = 4
 What = "turn"
CHECK_DEADLOCK FALSE
