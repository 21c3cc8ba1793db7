SPECIFICATION Spec
CONSTANTS
 MAXOPS = 60
INVARIANTS Apart Nested EmitInv
CHECK_DEADLOCK FALSE
