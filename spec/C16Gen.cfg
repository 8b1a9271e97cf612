SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 Kinds = {"sellmeier", "bbev", "bbcm", "sheet", "bad", "cond", "shipped"}
 MaxAsk = 4
CHECK_DEADLOCK FALSE
