SPECIFICATION Spec
CONSTANTS
 Kind = "vec"
 MaxSize = 2
 MaxLen = 12
INVARIANT InvD
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
