SPECIFICATION Spec
CONSTANTS
  MAXLINES = 3
  BADS = 0
  NOISE = FALSE
  PIECES <- NoPieces
  MAXPIECES = 0
INVARIANTS Faithful ErrorFinal LastWins EmitInv
