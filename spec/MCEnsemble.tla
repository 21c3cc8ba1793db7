----------------------------- MODULE MCEnsemble -----------------------------
EXTENDS Ensemble
EMats == {[l |-> 4, m |-> 4, r |-> 64], [l |-> 5, m |-> 7, r |-> 128]}
EDims == {<<2, 1, 1>>, <<1, 1, 2>>, <<3, 1, 1>>, <<2, 2, 1>>}
EHs == {<<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 2>>}
EBcs == {"initial_velocity", "prescribed_velocity", "prescribed_displacement"}
EVals == {-3, 1, 2, 4}
ESlopes == {0, 1, -2}
ERots == {1, 5, 10, 15, 20, 24}
EXis == {-1, 0, 1, 2}
EWeights == {-1, 0, 1, 2}
EFaultsNone == {"none"}
EFaults == {"none", "no model", "no file", "no such file", "short row", "long row", "no row", "no colon", "short weights", "long weights",
            "short header", "no value", "unused material",
            "unknown parameter", "parameter twice", "bad range", "bad sample", "bad weight", "bad count"}
=============================================================================
