SPECIFICATION Spec
CONSTANTS TRI = {0, 1, 2, 3}
 FAR = {0, 1, 2, 3, 4, 5}
 NPT = 40
INVARIANTS ClosestIsClosest Foot Turned EmitInv
CHECK_DEADLOCK FALSE
