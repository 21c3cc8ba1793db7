------------------------------- MODULE MCHex --------------------------------
EXTENDS Hex
P1 == {-1, 0, 0, 1}
M1 == {-1, 0, 1}
=============================================================================
