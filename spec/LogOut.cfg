SPECIFICATION Spec
CONSTANTS
 Alpha = {97, 10, 13}
 StrLen = 5
INVARIANTS InvLines Emit
CHECK_DEADLOCK FALSE
