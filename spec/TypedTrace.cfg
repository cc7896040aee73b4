SPECIFICATION TSpec
CONSTANTS
 Part = "none"
 MaxLen = 40
 M = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
