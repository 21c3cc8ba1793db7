SPECIFICATION Spec
CONSTANTS
 MAXN = 8
 MAXLIST = 4
INVARIANTS SymPos Consistent GradeBound EmitInv
CHECK_DEADLOCK FALSE
