SPECIFICATION Spec
CONSTANTS
 Part = "timer"
 MaxNow = 3
 MaxLen = 12
 Ds = {1, 2}
 Unit = 1000000
INVARIANTS InvRan InvSw
VIEW Shape
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
