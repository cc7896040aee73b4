SPECIFICATION Spec
CONSTANTS
 MaxCap = 5
 InitCaps = {0,1,2,3}
 MaxSize = 5
 MaxLen = 16
VIEW Shape
INVARIANTS InvRefines InvCap
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
