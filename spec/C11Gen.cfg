SPECIFICATION Spec
CONSTANTS
 Backends = {0, 2}
 MaxTab = 3
 MaxAsk = 8
 Shipped = FALSE
 Singles = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
