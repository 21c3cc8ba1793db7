SPECIFICATION Spec
CONSTANTS
  SIZES = {1, 2, 3}
  MAXFAULTS = 1
INVARIANTS Loud AllOrNone EmitInv
PROPERTY Ends
