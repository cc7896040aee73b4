SPECIFICATION Spec
CONSTANTS
 Kind = "vec"
 MaxSize = 7
 MaxLen = 60
INVARIANTS InvD EmitRun
CHECK_DEADLOCK FALSE
