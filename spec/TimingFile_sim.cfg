SPECIFICATION Spec
CONSTANTS
 PIECES = {" ", "-", ".", ":", "T", "07", "2026", "Nov"}
 MAXOPS = 12
INVARIANTS NoBlank Either Ranks EmitInv
CHECK_DEADLOCK FALSE
