SPECIFICATION TSpec
CONSTANTS
 Ids = {"a"}
 MaxLen = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
