SPECIFICATION Spec
CONSTANTS
 Kinds = {"fmap", "fset", "svec", "imap", "iset"}
 K = {1, 2, 3, 4, 5, 6, 7, 8}
 V = {0, 1, 2}
 MaxSize = 12
 MaxLen = 50
 MaxInit = 1

INVARIANTS InvSorted InvSortedMulti InvUnique InvBounds EmitRun


CHECK_DEADLOCK FALSE
