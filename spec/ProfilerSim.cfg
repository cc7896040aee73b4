SPECIFICATION Spec
CONSTANTS
 Names = {"a", "b"}
 Ds = {1, 2, 7, 40}
 MaxNow = 100000
 MaxNodes = 9
 MaxDepth = 5
 MaxLen = 50
INVARIANTS InvCover InvPaths InvReport EmitRun
CHECK_DEADLOCK FALSE
