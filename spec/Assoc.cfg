SPECIFICATION Spec
CONSTANTS
 Kinds = {"fmap", "fset", "svec", "imap", "iset"}
 K = {1, 2, 3}
 V = {0, 7}
 MaxSize = 3
 MaxLen = 12
 MaxInit = 0
VIEW Shape
INVARIANTS InvSorted InvSortedMulti InvUnique InvBounds
PROPERTIES Stable
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
