SPECIFICATION Spec
CONSTANTS
  MAXLINES = 1
  BADS = 0
  NOISE = FALSE
  PIECES <- P7
  MAXPIECES = 5
INVARIANTS Faithful ErrorFinal LastWins EmitInv
