SPECIFICATION Spec
CONSTANTS
 PERT <- P1
 MOVES <- M1
INVARIANTS Unity MassSum VolumeRational AffineExact AffineVolume Balance Virial ColumnBalance Linear EmitInv
CHECK_DEADLOCK FALSE
