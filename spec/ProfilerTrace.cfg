SPECIFICATION TSpec
CONSTANTS
 Names = {"a", "b"}
 Ds = {1}
 MaxNow = 4
 MaxNodes = 4
 MaxDepth = 2
 MaxLen = 16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
