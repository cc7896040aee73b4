SPECIFICATION TSpec
CONSTANTS
 Part = "walk"
 MaxLen = 60
 M = 1
 Rich = FALSE
 Listed = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
