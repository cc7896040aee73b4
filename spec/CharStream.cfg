SPECIFICATION Spec
CONSTANTS
 Alpha = {97, 32}
 TextLen = 2
 Extra = {}
 Delims = {32, 10}
 Quotes = {34}
 Operators = {}
 Words = {<<97>>}
 MaxLen = 12
 Rich = FALSE
VIEW Core
INVARIANTS InvTerminates InvPos InvProgress
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
