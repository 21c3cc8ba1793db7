SPECIFICATION SimSpec
CONSTANTS
 MAXWORDS = 5
INVARIANTS Placed RunNeeds Ignored EmitInv
CHECK_DEADLOCK FALSE
