SPECIFICATION TSpec
CONSTANTS
 Part = "timer"
 MaxNow = 3
 MaxLen = 12
 Ds = {1, 2}
 Unit = 1000000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
