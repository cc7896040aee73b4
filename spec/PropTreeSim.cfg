SPECIFICATION Spec
CONSTANTS
 K = {"a", "b", "", "ab"}
 V = {"", "1", "x", "4y"}
 Vs = {"1", "2"}
 Groups = {"edit", "look", "read"}
 MaxNodes = 9
 MaxLen = 30
 Delims = {"."}
 EmitFull = TRUE
INVARIANTS InvListing EmitRun
CHECK_DEADLOCK FALSE
