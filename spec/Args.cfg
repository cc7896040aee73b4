SPECIFICATION Spec
CONSTANTS
 Words = {}
 Names = {}
 MaxArgs = 3
INVARIANTS InvTree Emit
CHECK_DEADLOCK FALSE
