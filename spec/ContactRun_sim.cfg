SPECIFICATION RSpec
CONSTANTS DIMS <- D2
 RANKS = {2, 3}
 NPART = 1
 STEPS = 4
 SHIFT <- Sh
 VEL <- Ve
 Bodies <- B2
INVARIANTS Balanced Distributed Alike Listed EmitRun
CHECK_DEADLOCK FALSE
