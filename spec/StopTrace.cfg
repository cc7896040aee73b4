SPECIFICATION TSpec
CONSTANTS
 NSrc = 4
 NTok = 6
 NInt = 3
 MaxState = 3
 MaxLen = 12
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
