SPECIFICATION Spec
CONSTANTS
 Part = "text"
 MaxLen = 1
 M = 2
INVARIANTS InvBack InvWhole InvDefault
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
