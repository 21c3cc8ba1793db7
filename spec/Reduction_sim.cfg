CONSTANTS
 MinRanks = 2
 MaxRanks = 5
 MaxNodes = 7
 Ids = {3,0,7,12,5,101,4000,65536,2000000,2147483000}
 MaxOps = 5
 Algo = FALSE
 Emit = TRUE
SPECIFICATION Spec
