SPECIFICATION SpecDerive
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Pre <- EmptySeq
  Post <- EmptySeq
  MaxTok = 14
  MaxMut = 2
INVARIANTS EmitInv Derivable WellFormed Balanced
