SPECIFICATION Spec
CONSTANTS
 Names = {"a"}
 MaxDepth = 2
 MaxNodes = 4
 MaxLen = 9
INVARIANTS Inv
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
