SPECIFICATION SpecAll
CONSTANTS
  Alphabet = {"1", ".", "e", "-", "+", "x"}
  MaxLen = 5
  Pre <- Empty
  Post <- Empty
  MaxTok = 0
  MaxMut = 0
INVARIANTS Whole EmitLex
CHECK_DEADLOCK FALSE
