SPECIFICATION Spec
CONSTANTS
 MAXWORDS = 4
INVARIANTS Placed RunNeeds Ignored
CHECK_DEADLOCK FALSE
