SPECIFICATION SSpec
CONSTANTS DIMS <- D1
 RANKS = {2, 3, 4}
 NPART = 2
INVARIANTS Closed OwnersOk Distributed NumberingOk IdsDistinct EmitSkin
CHECK_DEADLOCK FALSE
