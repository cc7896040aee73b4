SPECIFICATION Spec
CONSTANTS
 Part = "flags"
 MaxLen = 40
 M = 3
INVARIANTS InvFlags InvSearch InvSide InvPlot InvMoment
  InvCast
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
