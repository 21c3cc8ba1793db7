SPECIFICATION Spec
CONSTANTS
 NN = 7
 MAXE = 6
 MAXOPS = 40
INVARIANTS Conserved Boxed EmitInv
PROPERTIES Together
CHECK_DEADLOCK FALSE
