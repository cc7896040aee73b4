SPECIFICATION Spec
CONSTANTS
 Ids = {"a"}
 MaxLen = 5
INVARIANTS InvValid
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
