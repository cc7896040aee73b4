SPECIFICATION Spec
CONSTANTS
 MaxCap = 9
 InitCaps = {0,1,4,7}
 MaxSize = 9
 MaxLen = 60
INVARIANTS InvRefines InvCap EmitRun
CHECK_DEADLOCK FALSE
