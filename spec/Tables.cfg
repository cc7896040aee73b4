SPECIFICATION Spec
CONSTANTS
 Kind = "sto"
 Names = {"a", "b", "c"}
 MaxR = 2
 MaxC = 2
 MaxLen = 12
INVARIANTS InvShape
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
