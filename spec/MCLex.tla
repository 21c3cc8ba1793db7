------------------------------- MODULE MCLex --------------------------------
EXTENDS Lex
Empty == <<>>
=============================================================================
