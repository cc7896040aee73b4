SPECIFICATION TSpec
CONSTANTS
 Kind = "vec"
 MaxSize = 0
 MaxLen = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
