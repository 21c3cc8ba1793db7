SPECIFICATION Spec
CONSTANTS
  DIMS <- D211
  HS <- H1
  MATS <- MatHeavy
  NBLK = 1
  NRANK = 2
  ROTS = {1}
  VOID = FALSE
  NSETS = 1
  MAXBC = 1
  BCTYPES <- BCInit
  VALS = {2}
  SLOPES = {0}
  TSLOPES = {0}
  DTS <- DTneg1
  STEPS = {1, 4, 5}
  FREQS = {0, 1, 2, 3, 7}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
CONSTRAINT OnlyX
