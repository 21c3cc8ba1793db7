SPECIFICATION SpecLong
CONSTANTS
  Alphabet = {}
  MaxLen = 0
  Pre <- EmptySeq
  Post <- EmptySeq
  MaxTok = 60
  MaxMut = 60
INVARIANTS EmitInv Derivable WellFormed Balanced
