SPECIFICATION Spec
CONSTANTS
 MAXN = 20
 MAXE = 5
 MAXB = 3
 MAXR = 3
INVARIANTS Symmetric Reflexive Spread NoneIdle EmitInv
CHECK_DEADLOCK FALSE
