SPECIFICATION TSpec
CONSTANTS
 Alpha = {97}
 PathLen = 0
 Args = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
