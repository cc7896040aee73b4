SPECIFICATION Spec
CONSTANTS
 Mode = "means"
 Pieces = {<<97>>, <<61>>}
 Openings = {<<>>}
 MaxPieces = 3
 MaxSteps = 3
 Keys = {<<97>>}
 Vals = {<<>>, <<49>>}
 Macros = {<<36, 109>>}
 EmitAll = TRUE
 Rich = FALSE
INVARIANTS InvMeaning Emit
CHECK_DEADLOCK FALSE
