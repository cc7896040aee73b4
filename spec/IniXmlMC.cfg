SPECIFICATION Spec
CONSTANTS
 F = "ini"
 Mode = "pieces"
 Pieces = {<<97>>, <<61>>}
 Openings = {<<>>}
 Closings = {<<>>}
 MaxPieces = 3
 K = {<<97>>}
 V = {<<>>, <<49>>}
 MaxNodes = 3
 MaxSteps = 3
 Rich = FALSE
INVARIANTS InvMeaning InvRound Emit
CHECK_DEADLOCK FALSE
