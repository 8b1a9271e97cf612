SPECIFICATION OSpec
CONSTANTS
 Backends = {0}
 Kinds = {"1d"}
 Lossy = FALSE
 Fts = {1}
 Pols = {}
 Thin = FALSE
 Cutoff = FALSE
INVARIANTS ZeroOrder Bijection RowMajor ConvexRows Moves
CHECK_DEADLOCK FALSE
