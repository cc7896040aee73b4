SPECIFICATION Spec
CONSTANTS
 Names = {"a", "b"}
 MaxDepth = 3
 MaxNodes = 12
 MaxLen = 30
INVARIANTS Inv EmitRun
CHECK_DEADLOCK FALSE
