SPECIFICATION Spec
CONSTANTS
  DIMS <- D4
  HS <- H3
  MATS <- MatAll
  NBLK = 3
  NRANK = 1
  ROTS <- R24
  VOID = TRUE
  NSETS = 4
  MAXBC = 1
  BCTYPES <- BCAll
  VALS <- V4
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {1}
  FREQS = {1}
  IPT = FALSE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
