SPECIFICATION Spec
CONSTANTS
 MaxF = 6
 MaxC = 4
 MaxLen = 50
INVARIANTS InvFifo EmitRun
CHECK_DEADLOCK FALSE
