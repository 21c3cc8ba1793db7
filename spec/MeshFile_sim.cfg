SPECIFICATION Spec
CONSTANTS
 NF = 3
 MAXOPS = 24
INVARIANTS RoundTrip WellFormed Forward EmitInv
CHECK_DEADLOCK FALSE
