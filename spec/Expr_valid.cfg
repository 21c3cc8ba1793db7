SPECIFICATION SpecDerive
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Pre <- EmptySeq
  Post <- EmptySeq
  MaxTok = 16
  MaxMut = 0
INVARIANTS EmitInv Derivable WellFormed Balanced
