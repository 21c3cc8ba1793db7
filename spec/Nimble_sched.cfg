SPECIFICATION Spec
CONSTANTS
  DIMS <- D111
  HS <- H1
  MATS <- MatHeavy
  NBLK = 1
  NRANK = 1
  ROTS = {1}
  VOID = FALSE
  NSETS = 1
  MAXBC = 1
  BCTYPES <- BCInit
  VALS = {2}
  SLOPES = {0}
  TSLOPES = {0}
  DTS <- DTneg
  STEPS = {0, 1, 2, 3, 4, 5, 6, 7}
  FREQS = {0, 1, 2, 3, 4, 5, 8}
  IPT = FALSE
  T0S = {0, 3}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
CONSTRAINT OnlyAll
