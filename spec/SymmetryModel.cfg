SPECIFICATION MSpec
CONSTANTS
 Backends = {0}
 Kinds = {"2d"}
 Lossy = FALSE
 Fts = {0}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
INVARIANTS SameWave Inside Distinct Centre Share Dims2 Involutions TwiceBack BackWave Points
CHECK_DEADLOCK FALSE
