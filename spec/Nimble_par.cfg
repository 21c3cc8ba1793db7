SPECIFICATION Spec
CONSTANTS
  DIMS <- D3P
  HS <- H3
  MATS <- MatAll
  NBLK = 2
  NRANK = 3
  ROTS <- R6
  VOID = TRUE
  NSETS = 2
  MAXBC = 2
  BCTYPES <- BCAll
  VALS <- V4
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {2, 3}
  FREQS = {1}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
