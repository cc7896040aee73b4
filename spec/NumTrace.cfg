SPECIFICATION TSpec
CONSTANTS
 Part = "scalar"
 MaxLen = 60
 M = 1
 Rich = FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
