SPECIFICATION Spec
CONSTANTS
  DIMS <- D222
  HS <- H3
  MATS <- MatAll
  NBLK = 2
  NRANK = 1
  ROTS <- R6
  VOID = TRUE
  NSETS = 2
  MAXBC = 3
  BCTYPES <- BCAll
  VALS <- V3
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {3}
  FREQS = {1}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
