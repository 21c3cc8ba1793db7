------------------------------- MODULE Labels -------------------------------
(* The names of fields.                                                      *)
(*                                                                           *)
(* A field has a label, a length (scalar, vector, symmetric or full tensor,  *)
(* or a number of components) and, for data at an integration point, a       *)
(* prefix that carries the number of the point.  A name is a sequence of     *)
(* characters.  The machine keeps a registry of fields and asks for the      *)
(* names made from a field and for the field recovered from a name.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXOPS

VARIABLES act, reg, ops
vars == <<act, reg, ops>>

Rnd(S) == RandomElement(S)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits == {Digit[i] : i \in 1..10}
Val(c) == (CHOOSE i \in 1..10 : Digit[i] = c) - 1
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE Dec(n \div 10) \o <<Digit[(n % 10) + 1]>>
Ipt == <<"i", "p", "t">>
\* the prefix of a point: two digits at least
Prefix(n) == Ipt \o (IF n < 10 THEN <<"0">> ELSE <<>>) \o Dec(n) \o <<"_">>
\* the length of the prefix of a name, or 0
RECURSIVE Run(_, _)
Run(l, k) == IF k <= Len(l) /\ l[k] \in Digits THEN Run(l, k + 1) ELSE k
Head3(l) == Len(l) >= 3 /\ SubSeq(l, 1, 3) = Ipt
PrefixLen(l) == IF ~Head3(l) THEN 0 ELSE LET k == Run(l, 4) IN IF k > 4 /\ k <= Len(l) /\ l[k] = "_" THEN k ELSE 0
Strip(l) == SubSeq(l, PrefixLen(l) + 1, Len(l))
RECURSIVE Num(_, _)
Num(l, k) == IF l[k] \in Digits THEN Num(l, k - 1) * 10 + Val(l[k]) ELSE 0
Point(l) == Num(l, PrefixLen(l) - 1)

Named == {"scalar", "vector", "sym", "full"}
Lengths == Named \cup {ToString(n) : n \in 1..20}
Count(len, dim) == CASE len = "scalar" -> 1 [] len = "vector" -> dim [] len = "sym" -> (dim * (dim + 1)) \div 2 [] len = "full" -> dim * dim
                     [] OTHER -> CHOOSE n \in 1..20 : ToString(n) = len
C2(a, b) == <<"_", a, b>>
Tensor3 == <<C2("x", "x"), C2("y", "y"), C2("z", "z"), C2("x", "y"), C2("y", "z"), C2("z", "x"), C2("y", "x"), C2("z", "y"), C2("x", "z")>>
Tensor2 == <<C2("x", "x"), C2("y", "y"), C2("x", "y"), C2("y", "x")>>
Suffix(len, dim, i) == IF len = "scalar" THEN <<>> ELSE IF len = "vector" THEN <<"_", <<"x", "y", "z">>[i]>>
  ELSE IF len \in {"sym", "full"} THEN (IF dim = 3 THEN Tensor3[i] ELSE Tensor2[i]) ELSE <<"_">> \o Dec(i)
Components(l, len, dim) == [i \in 1..Count(len, dim) |-> l \o Suffix(len, dim, i)]

Word(x) == LET n == Rnd(1..6) IN [i \in 1..(n + 0 * Len(x)) |-> Rnd({"i", "p", "t", "_", "0", "1", "7", "s", "x"})]
Special == {<<"s", "t", "r", "e", "s", "s">>, Ipt, Ipt \o <<"x">>, Ipt \o <<"_", "x">>, Ipt \o <<"7">>, Ipt \o <<"7", "x">>, Ipt \o <<"7", "_", "x">>, Ipt \o <<"0", "1", "_">>,
            <<"x">> \o Ipt \o <<"0", "1", "_", "x">>, <<"I", "p", "t", "0", "1", "_", "x">>, Prefix(3) \o Prefix(4) \o <<"s">>, <<"i", "p">>, <<"_", "x">>}
Name(x) == IF Rnd(1..2) = 1 THEN Word(x) ELSE Rnd(IF Len(x) >= 0 THEN Special ELSE {})
Points == {1, 2, 8, 9, 10, 27, 99, 100, 123, 1000}

-----------------------------------------------------------------------------
Init == act = "run" /\ reg = <<>> /\ ops = <<>>
Do(e) == Len(ops) < MAXOPS /\ ops' = Append(ops, e) /\ UNCHANGED <<act, reg>>
Go == act = "run" /\ Len(ops) < MAXOPS

\* a name asked for its prefix, with and without one given to it
Ask == Go /\ \E l \in {TLCEval(Name(ops))} : Do([op |-> "ask", l |-> l, has |-> PrefixLen(l) > 0, strip |-> Strip(l), point |-> IF PrefixLen(l) > 0 /\ PrefixLen(l) < 12 THEN Point(l) ELSE -1])
Add == Go /\ \E l \in {TLCEval(Name(ops))} : \E n \in {Rnd(Points)} : Do([op |-> "add", l |-> l, n |-> n, val |-> Prefix(n) \o l])
\* the names of the components of a field, of the field at a point, and of a component that does not exist
Parts == Go /\ \E l \in {TLCEval(Name(ops))} : \E len \in {Rnd(IF Rnd(1..2) = 1 THEN Named ELSE Lengths)} : \E dim \in {Rnd({2, 3})} : \E n \in {Rnd(Points)} :
  Do([op |-> "parts", l |-> l, len |-> len, dim |-> dim, n |-> n, val |-> Components(l, len, dim), at |-> [i \in 1..Count(len, dim) |-> Prefix(n) \o l \o Suffix(len, dim, i)]])
Dims == Go /\ \E len \in {Rnd(Lengths \cup {"undefined"})} : \E dim \in {Rnd({1, 2, 3, 4})} :
  Do([op |-> "count", len |-> len, dim |-> dim, val |-> IF len = "undefined" \/ dim \notin {2, 3} THEN -1 ELSE Count(len, dim)])
\* the registry: one length for one name, whatever the points
Register == Go /\ Len(reg) < 8 /\ \E l \in {TLCEval(Name(ops))} : \E len \in {Rnd(Lengths)} : \E n \in {Rnd(Points \cup {0, 0, 0})} :
  LET f == IF n = 0 THEN l ELSE Prefix(n) \o l
      old == {i \in 1..Len(reg) : Strip(reg[i].l) = Strip(f)}
      k == IF old = {} THEN len ELSE reg[CHOOSE i \in old : TRUE].len
  IN reg' = Append(reg, [l |-> f, len |-> k]) /\ ops' = Append(ops, [op |-> "register", l |-> f, len |-> k]) /\ UNCHANGED act
Find == Go /\ reg # <<>> /\ \E i \in {Rnd(1..Len(reg))} : \E how \in {Rnd({"own", "bare", "other", "none", "none"})} : \E n \in {Rnd(Points)} : \E z \in {TLCEval(Name(ops))} :
  LET l == CASE how = "own" -> reg[i].l [] how = "bare" -> Strip(reg[i].l) [] how = "other" -> Prefix(n) \o Strip(reg[i].l) [] OTHER -> z
      hit == {j \in 1..Len(reg) : Strip(reg[j].l) = Strip(l)}
  IN Do([op |-> "find", l |-> l, val |-> IF hit = {} THEN "absent" ELSE reg[CHOOSE j \in hit : TRUE].len])
Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<reg, ops>>
Next == Ask \/ Add \/ Parts \/ Dims \/ Register \/ Find \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* adding a prefix is undone by taking it away, and its number comes back
RoundTrip == \A k \in 1..Len(ops) : LET e == ops[k] IN e.op = "add" => PrefixLen(e.val) = Len(Prefix(e.n)) /\ Strip(e.val) = e.l /\ Point(e.val) = e.n
\* every component of a field at every point has a name of its own
Own == \A k \in 1..Len(ops) : LET e == ops[k] IN e.op = "parts" =>
  /\ Cardinality({e.val[i] : i \in 1..Len(e.val)}) = Count(e.len, e.dim) /\ Cardinality({e.at[i] : i \in 1..Len(e.at)}) = Count(e.len, e.dim)
  /\ \A i \in 1..Len(e.at) : Strip(e.at[i]) = e.val[i]
\* a name finds one length
One == \A i, j \in 1..Len(reg) : Strip(reg[i].l) = Strip(reg[j].l) => reg[i].len = reg[j].len
EmitInv == act = "done" => PrintT("BEH " \o ToJson(ops))
=============================================================================
