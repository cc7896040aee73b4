SPECIFICATION Spec
CONSTANTS
 Nums = {0, 1}
 Builds = {0, 1}
 Posts = {<<>>}
 Alpha = {49, 46}
 StrLen = 4
 Mode = "text"
INVARIANTS InvText InvOrder Emit
CHECK_DEADLOCK FALSE
