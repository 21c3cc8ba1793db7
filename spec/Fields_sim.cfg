SPECIFICATION Spec
CONSTANTS
 MAXOPS = 26
INVARIANTS Injective Emit
PROPERTIES Stable Apart Advanced
CHECK_DEADLOCK FALSE
