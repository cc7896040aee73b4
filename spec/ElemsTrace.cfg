SPECIFICATION TSpec
CONSTANTS
 Part = "flags"
 MaxLen = 40
 M = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
