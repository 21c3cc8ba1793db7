-------------------------------- MODULE Lex ---------------------------------
(* The characters of expressions: how a text falls into tokens.              *)
(*                                                                           *)
(* A number is digits with at most one decimal point among or around them,   *)
(* and may carry an exponent, e with an optional sign and digits.  A word is *)
(* a letter followed by letters and digits.  Every text over a small set of  *)
(* characters is cut into tokens, each as long as possible, and judged by    *)
(* the recogniser of Expr; numbers keep their text.                          *)
EXTENDS Expr

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"e", "x", "y", "z", "t"}
Two == {">=", "<=", "=="}
Ch(s, i) == IF i <= Len(s) THEN s[i] ELSE "$"
RECURSIVE Run(_, _, _), Join(_, _, _)
\* first position at or behind i whose character is not in C
Run(s, i, C) == IF Ch(s, i) \in C THEN Run(s, i + 1, C) ELSE i
Join(s, i, j) == IF i >= j THEN "" ELSE s[i] \o Join(s, i + 1, j)

\* end of the number that starts at i; i itself if there is none
NumEnd(s, i) ==
  LET a == Run(s, i, Digits)
      b == IF Ch(s, a) = "." THEN Run(s, a + 1, Digits) ELSE a
      mantissa == a > i \/ b > a + 1
      sgn == IF Ch(s, b + 1) \in {"+", "-"} THEN b + 2 ELSE b + 1
      c == Run(s, sgn, Digits)
  IN IF ~mantissa THEN i ELSE IF Ch(s, b) = "e" /\ c > sgn THEN c ELSE b
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = " " THEN Tokens(s, i + 1)
  ELSE LET n == NumEnd(s, i) IN
       IF n > i THEN <<[num |-> TRUE, t |-> Join(s, i, n)]>> \o Tokens(s, n)
       ELSE IF s[i] \in Letters
            THEN LET e == Run(s, i, Letters \cup Digits) IN <<[num |-> FALSE, t |-> Join(s, i, e)]>> \o Tokens(s, e)
       ELSE IF Join(s, i, IF i < Len(s) THEN i + 2 ELSE i + 1) \in Two
            THEN <<[num |-> FALSE, t |-> Join(s, i, i + 2)]>> \o Tokens(s, i + 2)
       ELSE <<[num |-> FALSE, t |-> s[i]]>> \o Tokens(s, i + 1)

\* numbers come in the same order in the text and in the postfix program
RECURSIVE Fill(_, _)
Fill(p, ns) == IF p = <<>> THEN <<>>
               ELSE IF Head(p) = "1" THEN <<Head(ns)>> \o Fill(Tail(p), Tail(ns)) ELSE <<Head(p)>> \o Fill(Tail(p), ns)
LexResult(s) ==
  LET ts == Tokens(s, 1)
      parsed == Parse([k \in 1..Len(ts) |-> IF ts[k].num THEN "1" ELSE ts[k].t])
      nums == LET ns == SelectSeq(ts, LAMBDA x : x.num) IN [k \in 1..Len(ns) |-> ns[k].t]
      plus == \E k \in 1..Len(ts) - 1 : ts[k].t = "+" /\ ts[k + 1].num
                /\ (k = 1 \/ ~(ts[k - 1].num \/ ts[k - 1].t \in Letters \cup {")"}))
  IN [c |-> Join(s, 1, Len(s) + 1), t |-> [k \in 1..Len(ts) |-> ts[k].t], ok |-> parsed.ok,
      p |-> IF parsed.ok THEN Fill(parsed.p, nums) ELSE <<>>, m |-> 0, u |-> plus]
EmitLex == Len(form) > 0 => PrintT("BEH " \o ToJson(LexResult(form)))
\* tokens lose no character but the blanks
Whole == LET r == Tokens(form, 1) IN
  Join([k \in 1..Len(r) |-> r[k].t], 1, Len(r) + 1) = LET q == SelectSeq(form, LAMBDA c : c # " ") IN Join(q, 1, Len(q) + 1)
=============================================================================
