SPECIFICATION Spec
CONSTANTS
  DIMS <- D3
  HS <- H3
  MATS <- MatAll
  NBLK = 2
  NRANK = 1
  ROTS <- R6
  VOID = TRUE
  NSETS = 2
  MAXBC = 4
  BCTYPES <- BCAll
  VALS <- V4
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {3, 4}
  FREQS = {1, 2}
  IPT = FALSE
  T0S = {0, 3}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
