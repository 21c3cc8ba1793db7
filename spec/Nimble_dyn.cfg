SPECIFICATION Spec
CONSTANTS
  DIMS <- D3
  HS <- H3
  MATS <- MatAll
  NBLK = 2
  NRANK = 1
  ROTS <- R6
  VOID = TRUE
  NSETS = 2
  MAXBC = 3
  BCTYPES <- BCInit
  VALS <- V3
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1}
  STEPS = {4, 6}
  FREQS = {1, 4}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
