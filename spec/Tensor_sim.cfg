SPECIFICATION Spec
CONSTANTS
  MAXOPS = 40
  BIG = 300
INVARIANTS Sound EmitInv
CHECK_DEADLOCK FALSE
