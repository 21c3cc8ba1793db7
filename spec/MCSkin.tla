------------------------------- MODULE MCSkin -------------------------------
EXTENDS Skin
D1 == { <<1,1,1>>, <<2,1,1>>, <<2,2,1>>, <<3,1,2>>, <<2,2,2>>, <<1,3,2>>, <<3,2,1>>, <<4,1,1>>, <<1,2,3>>, <<3,2,2>> }
=============================================================================
