------------------------------ MODULE MCNimble ------------------------------
EXTENDS Nimble
M1 == [l |-> 0, m |-> 1, r |-> 8]
M2 == [l |-> 1, m |-> 1, r |-> 8]
M3 == [l |-> 2, m |-> 1, r |-> 16]
M4 == [l |-> 1, m |-> 2, r |-> 24]
MatAll == {M1, M2, M3, M4}
MatTwo == {M2, M4}
H1 == {<<1, 1, 1>>}
H3 == {<<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 2>>}
D3 == {<<2, 2, 1>>, <<3, 1, 1>>, <<1, 2, 2>>}
D222 == {<<2, 2, 2>>}
D211 == {<<2, 1, 1>>}
D111 == {<<1, 1, 1>>}
BCAll == {"initial_velocity", "prescribed_velocity", "prescribed_displacement"}
BCInit == {"initial_velocity"}
BCNone == {}
MatOne == {M2}
MatHeavy == {[l |-> 1, m |-> 1, r |-> 64]}
D2 == {<<2, 1, 1>>, <<1, 1, 2>>, <<1, 1, 1>>}
D4 == {<<4, 2, 1>>, <<2, 2, 2>>, <<1, 3, 2>>, <<5, 1, 1>>}
V3 == {-3, 1, 2}
R24 == 1..24
\* keeps the exhaustive scenario spaces small: one node set (everything), x only
OnlyX == /\ \A k \in 1..Len(sc.sets) : sc.sets[k].kind = "all" \/ (sc.sets[k].kind = "plane" /\ sc.sets[k].ax = 1 /\ sc.sets[k].at = 0)
         /\ \A k \in 1..Len(sc.bcs) : sc.bcs[k].co = 1 /\ sc.bcs[k].set = 1
OnlyAll == OnlyX /\ \A k \in 1..Len(sc.sets) : sc.sets[k].kind = "all"
V4 == {-3, 1, 2, 4}
S3 == {0, 1, -2}
S0 == {0}
D5P == {<<2, 2, 2>>, <<3, 2, 1>>, <<6, 1, 1>>}
D2P == {<<2, 1, 1>>, <<1, 1, 2>>, <<2, 2, 1>>}
DTneg == {1, 2, -1}
DTneg1 == {1, -2}
D3P == {<<2, 2, 1>>, <<4, 1, 1>>, <<2, 2, 2>>, <<3, 1, 2>>}
R6 == {1, 5, 10, 15, 20, 24}
=============================================================================
