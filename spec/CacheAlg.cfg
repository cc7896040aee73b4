SPECIFICATION Spec
CONSTANTS
 NT = 2
 NF = 1
 NC = 2
 NE = 3
 Variant = "right"
INVARIANTS InvAllowed InvKept
PROPERTY Live
CHECK_DEADLOCK TRUE
