SPECIFICATION Spec
CONSTANTS
  MAXLINES = 14
  BADS = 0
  NOISE = TRUE
  PIECES <- NoPieces
  MAXPIECES = 0
INVARIANTS Faithful ErrorFinal LastWins EmitInv
