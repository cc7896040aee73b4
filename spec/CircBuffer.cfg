SPECIFICATION Spec
CONSTANTS
 MaxF = 3
 MaxC = 2
 MaxLen = 12
VIEW Shape
INVARIANTS InvFifo
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
