SPECIFICATION Spec
CONSTANTS
 Ids = {"a", "b", "g.c", "g.d", "g.h.e", "f", "t", "k", "r", "m", "zz"}
 MaxLen = 30
INVARIANTS InvValid EmitRun
CHECK_DEADLOCK FALSE
