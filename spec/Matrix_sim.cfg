SPECIFICATION Spec
CONSTANTS
 MAXN = 7
 MAXOPS = 24
 MAXNODES = 5
 MAXBC = 4
INVARIANTS Shape ReadsColumn Idle Untouched EmitInv
CHECK_DEADLOCK FALSE
