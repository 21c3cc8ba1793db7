SPECIFICATION SpecAll
CONSTANTS
  Alphabet <- ASign
  MaxLen = 5
  Pre <- EmptySeq
  Post <- EmptySeq
  MaxTok = 0
  MaxMut = 0
INVARIANTS EmitInv WellFormed Balanced
