SPECIFICATION Spec
CONSTANTS
 K = {"a", ""}
 V = {"", "1"}
 Vs = {"1"}
 Groups = {"edit", "look"}
 MaxNodes = 3
 MaxLen = 20
 Delims = {"."}
 EmitFull = FALSE
VIEW View
INVARIANTS InvListing InvQuery
PROPERTIES LookupsArePure ReadsKeepMarks SetThenGet
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
