SPECIFICATION Spec
CONSTANTS
  PIECES = {"m", ".g", ".e", "/", ".", " ", "exo", "a.go"}
  MAXPIECES = 3
  EXTS = {"g", "e"}
  LABELS = {"", "out", "contact.vis"}
  SIZES = {1, 2, 10, 11, 128}
INVARIANTS Distinct Tagged EmitInv
