SPECIFICATION Spec
CONSTANTS
 NSrc = 2
 NTok = 2
 NInt = 1
 MaxState = 3
 MaxLen = 12
PROPERTIES Forever Reaches
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
