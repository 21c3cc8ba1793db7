SPECIFICATION Spec
CONSTANTS
 MAXOPS = 40
INVARIANTS RoundTrip Own One EmitInv
CHECK_DEADLOCK FALSE
