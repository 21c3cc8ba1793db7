SPECIFICATION Spec
CONSTANTS
  SIZES = {1, 2, 3}
  MAXFAULTS = 2
INVARIANTS Loud AllOrNone EmitInv
