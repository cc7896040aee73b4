SPECIFICATION Spec
CONSTANTS
 Part = "cv"
 MaxLen = 6
 MaxV = 2
 MaxN = 2
 Rich = FALSE
INVARIANTS InvDelay InvPoints InvPc InvPl InvBounds InvRange
VIEW See
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
