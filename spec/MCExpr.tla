------------------------------- MODULE MCExpr -------------------------------
EXTENDS Expr
EmptySeq == <<>>
AArith == {"x", "3", "-", "+", "*", "/", "^", "%", "(", ")"}
ASign  == {"x", "2", "-", "*", "^", "2e-1", "e"}
ACond  == {"x", "1", ">", "==", "&", "|", "!", "^", "(", ")", "true"}
AFunc  == {"sin", "log10", "(", ")", "x", "-", "+"}
ATern  == {"true", "x", "2", "?", ":", "(", ")"}
CPre == <<>>
CPost == <<"?", "1", ":", "2">>
=============================================================================
