SPECIFICATION TSpec
CONSTANTS
 Kinds = {}
 K = {}
 V = {}
 MaxSize = 0
 MaxLen = 0
 MaxInit = 0
INVARIANTS InvSorted InvSortedMulti
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
