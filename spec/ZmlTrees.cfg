SPECIFICATION Spec
CONSTANTS
 K = {<<>>, <<97>>, <<98>>}
 V = {<<>>, <<49>>}
 MaxNodes = 4
 Emits = "all"
 Alpha = {}
 StrLen = 0
INVARIANTS InvRound Emit
CHECK_DEADLOCK FALSE
