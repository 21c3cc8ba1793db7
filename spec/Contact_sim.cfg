SPECIFICATION CSpec
CONSTANTS DIMS <- D2
 RANKS = {2, 3}
 NPART = 1
 STEPS = 4
 SHIFT <- Sh
 Bodies <- B2
INVARIANTS Balanced Distributed EmitContact
CHECK_DEADLOCK FALSE
