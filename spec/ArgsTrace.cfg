SPECIFICATION TSpec
CONSTANTS
 Words = {}
 Names = {}
 MaxArgs = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
