SPECIFICATION Spec
CONSTANTS
 Part = "walk"
 MaxLen = 60
 M = 1
 Rich = FALSE
 Listed = {}
INVARIANTS InvRot InvProd InvTwist InvMirror InvDirs InvWalk InvEuler
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
