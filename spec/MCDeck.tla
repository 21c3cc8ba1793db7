------------------------------- MODULE MCDeck -------------------------------
EXTENDS Deck
NoPieces == {}
P7 == {" ", "\t", "#", ":", "final time", "2.5", "foo"}
\* every key with one character missing, doubled or exchanged, cut off at a blank, or extended
EditsOf(k) ==
  LET n == Len(k) IN
  {SubSeq(k, 1, i - 1) \o SubSeq(k, i + 1, n) : i \in 1..n}
  \cup {SubSeq(k, 1, i) \o SubSeq(k, i, n) : i \in 1..n}
  \cup {SubSeq(k, 1, i - 1) \o c \o SubSeq(k, i + 1, n) : i \in 1..n, c \in {"_", "X"}}
  \cup {SubSeq(k, 1, i - 1) : i \in {j \in 2..n : SubSeq(k, j, j) = " "}}
  \cup {SubSeq(k, i + 1, n) : i \in {j \in 1..(n - 1) : SubSeq(k, j, j) = " "}}
  \cup {k \o c : c \in {"s", " x", " 2", " on", " 0"}} \cup {c \o k : c \in {"x ", "no ", "-"}}
  \cup {f \o SubSeq(k, i, n) : f \in {"contact", "output", "element", "final"}, i \in {j \in 1..n : SubSeq(k, j, j) = " "}}
  \cup {SubSeq(k, 1, i) \o f : f \in {"penalty", "file", "x"}, i \in {j \in 1..n : SubSeq(k, j, j) = " "}}
Trimmed(k) == SubSeq(k, 1, 1) # " " /\ SubSeq(k, Len(k), Len(k)) # " "
InitKeys == \E k \in Keys : \E m \in {e \in EditsOf(k) : Len(e) > 0 /\ Trimmed(e)} \ Keys :
  LET v == CHOOSE g \in Good : g.k = k /\ (Len(g.v) = 1 => g.v[1] # "LONG")
      ls == << <<"output frequency", ":", " ", "12">>, <<m, ":", " ">> \o Fill(k, v.v, " ") >>
  IN lines = ls /\ deck = Read(Default, ls, 1) /\ intent = deck /\ phase = "done" /\ cur = <<>>
SpecKeys == InitKeys /\ [][FALSE]_vars
OnlyErrors == deck.err
=============================================================================
