SPECIFICATION TSpec
CONSTANTS
 Names = {}
 Types = {}
 KeyNames = {}
 MaxLen = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
