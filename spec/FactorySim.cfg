SPECIFICATION Spec
CONSTANTS
 Names = {1, 2, 3, 4, 5, 6, 7, 8, 9}
 Types = {1, 2, 3, 4}
 KeyNames = {1, 2, 3, 4, 5, 6, 7, 8, 9}
 MaxLen = 40
INVARIANT EmitRun
CHECK_DEADLOCK FALSE
