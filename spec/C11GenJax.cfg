SPECIFICATION Spec
CONSTANTS
 Backends = {1}
 MaxTab = 3
 MaxAsk = 8
 Shipped = FALSE
 Singles = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
