SPECIFICATION Spec
CONSTANTS
 Alpha = {97, 46, 47}
 PathLen = 4
 Args = {<<>>}
INVARIANTS InvAlgebra Emit
CHECK_DEADLOCK FALSE
