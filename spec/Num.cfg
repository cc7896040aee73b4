SPECIFICATION Spec
CONSTANTS
 Part = "scalar"
 MaxLen = 1
 M = 3
 Rich = FALSE
INVARIANTS InvWave InvSoft InvRegr InvMedian InvSpline InvLines InvPath
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
