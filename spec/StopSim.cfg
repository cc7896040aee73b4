SPECIFICATION Spec
CONSTANTS
 NSrc = 3
 NTok = 4
 NInt = 2
 MaxState = 8
 MaxLen = 40
INVARIANTS EmitRun
CHECK_DEADLOCK FALSE
