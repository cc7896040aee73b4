SPECIFICATION Spec
CONSTANTS
 NT = 2
 NM = 1
 NO = 2
 NS = 2
 Lvls = {2, 3}
 Variant = "right"
INVARIANTS InvAllowed InvLow
PROPERTY Live
CHECK_DEADLOCK TRUE
