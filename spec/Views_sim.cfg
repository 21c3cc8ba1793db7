SPECIFICATION Spec
CONSTANTS
 N = 32
 MAXV = 8
 MAXOPS = 30
INVARIANTS Inside Shared EmitInv
PROPERTIES Outside
CHECK_DEADLOCK FALSE
