CONSTANTS
 MinRanks = 1
 MaxRanks = 3
 MaxNodes = 3
 Ids = {4, 9, 2}
 MaxOps = 0
 Algo = TRUE
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS CliquesAreHolderSets SameOrder AgreedOrder RightSums
