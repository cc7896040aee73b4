SPECIFICATION Spec
CONSTANTS
 NT = 2
 NC = 2
 Args = {1, 2}
 Variant = "right"
INVARIANTS InvAllowed InvLocks InvMem
PROPERTY Live
CHECK_DEADLOCK TRUE
