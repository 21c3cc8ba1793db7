CONSTANTS
 MaxVals = 4
SPECIFICATION Spec
INVARIANTS RoundTrip
