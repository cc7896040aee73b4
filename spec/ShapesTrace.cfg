SPECIFICATION TSpec
CONSTANTS
 Part = "shape"
 MaxLen = 1
 M = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
