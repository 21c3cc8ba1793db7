SPECIFICATION SpecAll
CONSTANTS
  Alphabet <- ACond
  MaxLen = 4
  Pre <- EmptySeq
  Post <- CPost
  MaxTok = 0
  MaxMut = 0
INVARIANTS EmitInv WellFormed Balanced
