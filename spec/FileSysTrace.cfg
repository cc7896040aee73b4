SPECIFICATION TSpec
CONSTANTS
 Names = {"a"}
 MaxDepth = 1
 MaxNodes = 1
 MaxLen = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
