SPECIFICATION MSpec
CONSTANTS
 Backends = {0}
 Kinds = {"1d"}
 Lossy = FALSE
 Fts = {0}
 Pols <- PolSet
 Thin = FALSE
 Cutoff = FALSE
INVARIANTS SamePhysics StillUniform MoreGeneral Injective Centre
CHECK_DEADLOCK FALSE
