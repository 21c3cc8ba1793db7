SPECIFICATION Spec
CONSTANTS
 MAXWORDS = 2
INVARIANTS Placed RunNeeds Ignored EmitInv
CHECK_DEADLOCK FALSE
