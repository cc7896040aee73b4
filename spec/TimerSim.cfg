SPECIFICATION Spec
CONSTANTS
 Part = "timer"
 MaxNow = 100
 MaxLen = 40
 Ds = {1, 3, 10}
 Unit = 1000000
INVARIANTS InvRan InvSw EmitRun
CHECK_DEADLOCK FALSE
