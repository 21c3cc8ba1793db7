SPECIFICATION Spec
CONSTANTS
  DIMS <- D2P
  HS <- H3
  MATS <- MatAll
  NBLK = 2
  NRANK = 2
  ROTS <- R24
  VOID = TRUE
  NSETS = 2
  MAXBC = 3
  BCTYPES <- BCAll
  VALS <- V4
  SLOPES <- S3
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {2}
  FREQS = {1}
  IPT = TRUE
  T0S = {0}
INVARIANTS Agree Equilibrated MassConserved MomentumConserved Schedule Constrained StartsRight InRange EmitInv
