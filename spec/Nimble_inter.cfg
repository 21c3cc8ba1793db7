SPECIFICATION Spec
CONSTANTS
  DIMS <- D211
  HS <- H1
  MATS <- MatOne
  NBLK = 1
  NRANK = 2
  ROTS = {1}
  VOID = FALSE
  NSETS = 1
  MAXBC = 2
  BCTYPES <- BCAll
  VALS = {2}
  SLOPES = {0}
  TSLOPES = {0, 1}
  DTS = {1}
  STEPS = {3}
  FREQS = {2}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
CONSTRAINT OnlyX
