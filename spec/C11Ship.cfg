SPECIFICATION Spec
CONSTANTS
 Backends = {0, 1, 2}
 MaxTab = 3
 MaxAsk = 8
 Shipped = TRUE
 Singles = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
