SPECIFICATION Spec
CONSTANTS
 Part = "shape"
 MaxLen = 1
 M = 3
INVARIANTS InvScale InvStack InvCapsule InvFar InvMeet InvHsv InvBounds
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
