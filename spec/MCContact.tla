----------------------------- MODULE MCContact ------------------------------
EXTENDS Contact
D2 == { <<2,1,1>>, <<1,2,1>>, <<2,1,2>>, <<3,1,1>>, <<1,2,2>>, <<1,1,3>> }
B2 == { <<1, 2, 1>>, <<1, 2, 3>>, <<1, 2, 3>> }
Sh == -6..6
=============================================================================
