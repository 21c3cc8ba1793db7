------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of the files a rank reads and writes.  A base name is a sequence  *)
(* of pieces; its suffix is a final ".g" or ".e".                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS PIECES, MAXPIECES, EXTS, LABELS, SIZES

VARIABLES base, ask, phase
vars == <<base, ask, phase>>

RECURSIVE Glue(_)
Glue(l) == IF l = <<>> THEN "" ELSE Head(l) \o Glue(Tail(l))
IsSuffix(p) == p \in {".g", ".e"}
\* a base name proper: something before the suffix that is no suffix and no directory itself
WellFormed(b) == /\ b # <<>> /\ b[Len(b)] \notin {"/", " "} /\ Head(b) # " "
                 /\ IsSuffix(b[Len(b)]) => Len(b) > 1 /\ ~IsSuffix(b[Len(b) - 1]) /\ b[Len(b) - 1] # "/"
Stem(b) == IF IsSuffix(b[Len(b)]) THEN SubSeq(b, 1, Len(b) - 1) ELSE b

RECURSIVE Dec(_)
Digit(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] n = 5 -> "5"
              [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] n = 9 -> "9"
Dec(n) == IF n < 10 THEN <<Digit(n)>> ELSE Dec(n \div 10) \o <<Digit(n % 10)>>
\* the rank number, as wide as the number of ranks
RECURSIVE Pad(_, _)
Pad(d, w) == IF Len(d) >= w THEN d ELSE Pad(<<"0">> \o d, w)
RankName(r, n) == Pad(Dec(r), Len(Dec(n)))

Name(b, ext, label, r, n) ==
  IF b = <<"none">> THEN b
  ELSE Stem(b) \o (IF label = "" THEN <<>> ELSE <<".", label>>) \o <<".", ext>>
       \o (IF n = 1 THEN <<>> ELSE <<".">> \o Dec(n) \o <<".">> \o RankName(r, n))

Asks == {[ext |-> e, label |-> l, n |-> n, r |-> r] : e \in EXTS, l \in LABELS, n \in SIZES, r \in 0..(CHOOSE m \in SIZES : \A k \in SIZES : k <= m)}
Edge(q) == q.r < q.n /\ (q.r \in {0, 1, 9, 10, 99, 100, 999, 1000} \/ q.r = q.n - 1)

Init == base = <<>> /\ ask = [ext |-> "", label |-> "", n |-> 1, r |-> 0] /\ phase = "base"
AddPiece == phase = "base" /\ Len(base) < MAXPIECES /\ \E p \in PIECES : base' = Append(base, p) /\ UNCHANGED <<ask, phase>>
None == phase = "base" /\ base = <<>> /\ base' = <<"none">> /\ phase' = "ask" /\ UNCHANGED ask
Close == phase = "base" /\ WellFormed(base) /\ phase' = "ask" /\ UNCHANGED <<base, ask>>
Ask == phase = "ask" /\ \E q \in Asks : Edge(q) /\ ask' = q /\ phase' = "done" /\ UNCHANGED base
Next == AddPiece \/ None \/ Close \/ Ask
Spec == Init /\ [][Next]_vars

\* ranks never share a file, and the files of a run sort in rank order
Distinct == phase = "done" /\ base # <<"none">> =>
   \A r \in 0..(ask.n - 1) : r # ask.r =>
      /\ Name(base, ask.ext, ask.label, r, ask.n) # Name(base, ask.ext, ask.label, ask.r, ask.n)
      /\ Len(RankName(r, ask.n)) = Len(RankName(ask.r, ask.n))
\* the output never overwrites the mesh: its tag differs
Tagged == phase = "done" /\ base # <<"none">> /\ ask.label # "" =>
   Glue(Name(base, ask.ext, ask.label, ask.r, ask.n)) # Glue(Name(base, "g", "", ask.r, ask.n))

EmitInv == phase = "done" => PrintT("BEH " \o ToJson([base |-> Glue(base), ext |-> ask.ext, label |-> ask.label, r |-> ask.r, n |-> ask.n,
                                                       name |-> Glue(Name(base, ask.ext, ask.label, ask.r, ask.n))]))
=============================================================================
