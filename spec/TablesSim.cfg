SPECIFICATION Spec
CONSTANTS
 Kind = "sto"
 Names = {"a", "b", "c", "d"}
 MaxR = 6
 MaxC = 7
 MaxLen = 40
INVARIANTS InvShape EmitRun
CHECK_DEADLOCK FALSE
