SPECIFICATION TSpec
CONSTANTS
 Steps = {"ok"}
 MaxSteps = 1
 Listed = {}
 MaxCases = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
