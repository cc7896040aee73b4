SPECIFICATION Spec
CONSTANTS
 Names = {1, 4, 9}
 Types = {1, 2, 3}
 KeyNames = {1, 4, 8}
 MaxLen = 10
PROPERTY InvStable
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
