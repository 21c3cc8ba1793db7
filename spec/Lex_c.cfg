SPECIFICATION SpecAll
CONSTANTS
  Alphabet = {"0", "7", ".", "x", " ", "*", "-"}
  MaxLen = 5
  Pre <- Empty
  Post <- Empty
  MaxTok = 0
  MaxMut = 0
INVARIANTS Whole EmitLex
CHECK_DEADLOCK FALSE
