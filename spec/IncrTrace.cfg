SPECIFICATION TSpec
CONSTANTS
 Part = "cv"
 MaxLen = 6
 MaxV = 2
 MaxN = 2
 Rich = FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
