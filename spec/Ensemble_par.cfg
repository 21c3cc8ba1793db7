SPECIFICATION ESpec
CONSTANTS
  DIMS <- EDims
  HS <- EHs
  MATS <- EMats
  NBLK = 2
  NRANK = 2
  ROTS <- ERots
  VOID = TRUE
  NSETS = 2
  MAXBC = 3
  BCTYPES <- EBcs
  VALS <- EVals
  SLOPES <- ESlopes
  TSLOPES = {0, 1}
  DTS = {1, 2}
  STEPS = {3, 4}
  FREQS = {1, 2}
  IPT = FALSE
  T0S = {0, 3}
  RANGES = {1, 2}
  XIS <- EXis
  WEIGHTS <- EWeights
  MAXEX = 2
  MAXAP = 2
  MAXPAR = 3
  FAULTS <- EFaultsNone
INVARIANTS Agree Equilibrated NominalMember CopyMember MemEquilibrated MemConstrained MemInRange HistoryParallel EEmit
