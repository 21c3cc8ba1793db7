SPECIFICATION Spec
CONSTANTS
  MAXLINES = 6
  BADS = 1
  NOISE = TRUE
  PIECES <- NoPieces
  MAXPIECES = 0
INVARIANTS Faithful ErrorFinal LastWins EmitInv
