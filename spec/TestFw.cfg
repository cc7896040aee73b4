SPECIFICATION Spec
CONSTANTS
 Steps = {"ok", "bad", "throw"}
 MaxSteps = 2
 Listed = {}
 MaxCases = 2
INVARIANTS InvPass Emit
CHECK_DEADLOCK FALSE
