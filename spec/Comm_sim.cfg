CONSTANTS
 MinRanks = 1
 MaxRanks = 5
 MaxOps = 10
 Kinds = {"gather","scatter","allgather","allgather3","allgatherz","bcast","bcast3","cat","catf","print","vv","p2p","split","skip","packids"}
SPECIFICATION Spec
