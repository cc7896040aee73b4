SPECIFICATION TSpec
CONSTANTS
 MaxCap = 0
 InitCaps = {}
 MaxSize = 0
 MaxLen = 0
INVARIANTS InvRefines InvCap
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
