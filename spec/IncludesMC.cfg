SPECIFICATION Spec
CONSTANTS
 Names = {<<97>>}
 Bodies = {<<>>}
 Missing = TRUE
 Rich = FALSE
INVARIANTS InvDone Emit
CHECK_DEADLOCK FALSE
