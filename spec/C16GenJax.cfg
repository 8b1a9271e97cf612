SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 Kinds = {"sellmeier", "bbev", "bbcm", "sheet", "bad", "cond", "shipped"}
 MaxAsk = 4
CHECK_DEADLOCK FALSE
