SPECIFICATION Spec
CONSTANTS
 Alpha = {97, 98}
 StrLen = 3
 Args = {<<>>, <<97>>}
 Ys = {<<>>, <<97>>}
 Chars = {97, 98}
 Ints = {-2, -1, 0, 1, 2, 3}
 Family = "cut"
INVARIANTS InvLaws Emit
CHECK_DEADLOCK FALSE
