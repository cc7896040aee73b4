SPECIFICATION Spec
CONSTANTS
 Names = {"a", "b"}
 Ds = {1}
 MaxNow = 4
 MaxNodes = 4
 MaxDepth = 2
 MaxLen = 16
INVARIANTS InvCover InvPaths InvReport
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
