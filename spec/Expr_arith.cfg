SPECIFICATION SpecAll
CONSTANTS
  Alphabet <- AArith
  MaxLen = 4
  Pre <- EmptySeq
  Post <- EmptySeq
  MaxTok = 0
  MaxMut = 0
INVARIANTS EmitInv WellFormed Balanced
