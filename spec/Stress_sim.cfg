SPECIFICATION Spec
CONSTANTS
 MAXF = 5
 MAXN = 8
INVARIANTS Admissible StressFree Objective Isotropic TraceFree Hooke EmitInv
CHECK_DEADLOCK FALSE
