SPECIFICATION Spec
CONSTANTS
 NT = 2
 MaxCalls = 2
 Args = {1, 2}
 Throwing = {1}
INVARIANT Emit
CHECK_DEADLOCK FALSE
