SPECIFICATION Spec
CONSTANTS
  NAMES = {"neohookean", "elastic", "Elastic", "neo_hookean", "density"}
  VALUES = {"1", "2.5", "7e3"}
  FAULTS = TRUE
INVARIANTS Faithful EmitInv
