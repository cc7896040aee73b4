SPECIFICATION TSpec
CONSTANTS
 Kind = "sto"
 Names = {"a"}
 MaxR = 0
 MaxC = 0
 MaxLen = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
