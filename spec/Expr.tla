-------------------------------- MODULE Expr --------------------------------
(* The expression language of boundary conditions.                           *)
(*                                                                           *)
(* The language is defined once, by the recursive-descent recogniser         *)
(* Parse(tokens): loosest to tightest  ?: , % , + - , * / , ^ (right         *)
(* associative) , unary minus; conditions are built from comparisons with    *)
(* | , ^ (exclusive or) , & , ! (loosest to tightest).  Parse yields either  *)
(* rejection or the postfix program that denotes the value.                  *)
(*                                                                           *)
(* Two generators share it:                                                  *)
(*   SpecAll    - every token sequence up to MaxLen over Alphabet, between   *)
(*                the fixed contexts Pre and Post (exhaustive, BFS)          *)
(*   SpecLong   - sentences of many terms, for -simulate                     *)
(*   SpecDerive - leftmost derivations of the grammar, then 0..MaxMut token  *)
(*                edits (delete / duplicate / replace / swap), for -simulate *)
(* Each complete sentence is emitted with the verdict of Parse and replayed  *)
(* into the code.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet, MaxLen, Pre, Post, MaxTok, MaxMut

VARIABLES form,   \* sentential form: sequence of tokens and nonterminals
          phase,  \* "derive" | "edit" | "done"
          muts    \* edits applied

vars == <<form, phase, muts>>

Numbers == {"0", "1", "2", "3", "0.5", "4", "7", "2.5", ".25", "5.", "1e2", "2e-1", "3e+1", "1.5e0", "0.125"}
Consts  == {"e", "pi", "tau"}
Vars    == {"x", "y", "z", "t"}
Funcs   == {"sin", "cos", "tan", "erf", "exp", "log", "abs", "asin", "acos", "atan",
            "sqrt", "cbrt", "erfc", "ceil", "round", "floor", "log10"}
CmpOps  == {">", "<", ">=", "<=", "=="}

-----------------------------------------------------------------------------
(* Recogniser.  Each P..(s, i, np) reads from position i and returns         *)
(* [ok, p (postfix), i (next position)].  np: no top-level ^ (it would be    *)
(* the exclusive or of conditions).                                          *)
Bad == [ok |-> FALSE, p |-> <<>>, i |-> 0]
Good(p, i) == [ok |-> TRUE, p |-> p, i |-> i]
Tok(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "$"

RECURSIVE PExpr(_, _), PMod(_, _, _), PModL(_, _, _), PAdd(_, _, _), PAddL(_, _, _),
          PMul(_, _, _), PMulL(_, _, _), PPow(_, _, _), PUn(_, _, _), PPrim(_, _),
          POr(_, _), POrL(_, _), PXor(_, _), PXorL(_, _), PAnd(_, _), PAndL(_, _),
          PNot(_, _), PCmp(_, _)

PPrim(s, i) ==
  LET c == Tok(s, i) IN
  CASE c \in Numbers \cup Consts \cup Vars -> Good(<<c>>, i + 1)
    [] c \in Funcs ->
         IF Tok(s, i + 1) # "(" THEN Bad
         ELSE LET a == PExpr(s, i + 2) IN
              IF a.ok /\ Tok(s, a.i) = ")" THEN Good(a.p \o <<"f:" \o c>>, a.i + 1) ELSE Bad
    [] c = "(" -> LET a == PExpr(s, i + 1) IN
                  IF a.ok /\ Tok(s, a.i) = ")" THEN Good(a.p, a.i + 1) ELSE Bad
    [] OTHER -> Bad

PUn(s, i, np) ==
  IF Tok(s, i) = "-"
  THEN LET a == PUn(s, i + 1, np) IN IF a.ok THEN Good(a.p \o <<"neg">>, a.i) ELSE Bad
  ELSE PPrim(s, i)

PPow(s, i, np) ==
  LET a == PUn(s, i, np) IN
  IF ~a.ok THEN Bad
  ELSE IF Tok(s, a.i) = "^" /\ ~np
       THEN LET b == PPow(s, a.i + 1, np) IN
            IF b.ok THEN Good(a.p \o b.p \o <<"^">>, b.i) ELSE Bad
       ELSE a

PMulL(s, a, np) ==
  IF a.ok /\ Tok(s, a.i) \in {"*", "/"}
  THEN LET b == PPow(s, a.i + 1, np) IN
       IF b.ok THEN PMulL(s, Good(a.p \o b.p \o <<Tok(s, a.i)>>, b.i), np) ELSE Bad
  ELSE a
PMul(s, i, np) == PMulL(s, PPow(s, i, np), np)

PAddL(s, a, np) ==
  IF a.ok /\ Tok(s, a.i) \in {"+", "-"}
  THEN LET b == PMul(s, a.i + 1, np) IN
       IF b.ok THEN PAddL(s, Good(a.p \o b.p \o <<Tok(s, a.i)>>, b.i), np) ELSE Bad
  ELSE a
PAdd(s, i, np) == PAddL(s, PMul(s, i, np), np)

PModL(s, a, np) ==
  IF a.ok /\ Tok(s, a.i) = "%"
  THEN LET b == PAdd(s, a.i + 1, np) IN
       IF b.ok THEN PModL(s, Good(a.p \o b.p \o <<"%">>, b.i), np) ELSE Bad
  ELSE a
PMod(s, i, np) == PModL(s, PAdd(s, i, np), np)

PCmp(s, i) ==
  IF Tok(s, i) \in {"true", "false"} THEN Good(<<Tok(s, i)>>, i + 1)
  ELSE LET a == PMod(s, i, TRUE) IN
       IF a.ok /\ Tok(s, a.i) \in CmpOps
       THEN LET b == PMod(s, a.i + 1, TRUE) IN
            IF b.ok THEN Good(a.p \o b.p \o <<Tok(s, a.i)>>, b.i) ELSE Bad
       ELSE IF Tok(s, i) = "("
            THEN LET c == POr(s, i + 1) IN
                 IF c.ok /\ Tok(s, c.i) = ")" THEN Good(c.p, c.i + 1) ELSE Bad
            ELSE Bad
PNot(s, i) ==
  IF Tok(s, i) = "!"
  THEN LET a == PNot(s, i + 1) IN IF a.ok THEN Good(a.p \o <<"!">>, a.i) ELSE Bad
  ELSE PCmp(s, i)
PAndL(s, a) ==
  IF a.ok /\ Tok(s, a.i) = "&"
  THEN LET b == PNot(s, a.i + 1) IN IF b.ok THEN PAndL(s, Good(a.p \o b.p \o <<"&">>, b.i)) ELSE Bad
  ELSE a
PAnd(s, i) == PAndL(s, PNot(s, i))
PXorL(s, a) ==
  IF a.ok /\ Tok(s, a.i) = "^"
  THEN LET b == PAnd(s, a.i + 1) IN IF b.ok THEN PXorL(s, Good(a.p \o b.p \o <<"xor">>, b.i)) ELSE Bad
  ELSE a
PXor(s, i) == PXorL(s, PAnd(s, i))
POrL(s, a) ==
  IF a.ok /\ Tok(s, a.i) = "|"
  THEN LET b == PXor(s, a.i + 1) IN IF b.ok THEN POrL(s, Good(a.p \o b.p \o <<"|">>, b.i)) ELSE Bad
  ELSE a
POr(s, i) == POrL(s, PXor(s, i))

HasQ(s, i) == \E j \in i..Len(s) : s[j] = "?"

PExpr(s, i) ==
  LET b == IF HasQ(s, i) THEN POr(s, i) ELSE Bad IN
  IF b.ok /\ Tok(s, b.i) = "?"
  THEN LET a == PExpr(s, b.i + 1) IN
       IF a.ok /\ Tok(s, a.i) = ":"
       THEN LET c == PExpr(s, a.i + 1) IN
            IF c.ok THEN Good(b.p \o a.p \o c.p \o <<"?:">>, c.i) ELSE Bad
       ELSE Bad
  ELSE PMod(s, i, FALSE)

Parse(s) == LET r == PExpr(s, 1) IN
            IF r.ok /\ r.i = Len(s) + 1 THEN [ok |-> TRUE, p |-> r.p] ELSE [ok |-> FALSE, p |-> <<>>]

-----------------------------------------------------------------------------
(* Grammar, as productions of leftmost derivation.                           *)
NT == {"<E>", "<M>", "<A>", "<T>", "<P>", "<U>", "<R>", "<B>", "<X>", "<N>", "<O>", "<C>", "<c>"}
ProdAll(n) ==
  CASE n = "<E>" -> {<<"<B>", "?", "<E>", ":", "<E>">>, <<"<M>">>, <<"<A>">>, <<"<T>">>}
    [] n = "<M>" -> {<<"<A>">>, <<"<M>", "%", "<A>">>}
    [] n = "<A>" -> {<<"<T>">>, <<"<A>", "+", "<T>">>, <<"<A>", "-", "<T>">>}
    [] n = "<T>" -> {<<"<P>">>, <<"<T>", "*", "<P>">>, <<"<T>", "/", "<P>">>}
    [] n = "<P>" -> {<<"<U>">>, <<"<U>", "^", "<P>">>}
    [] n = "<U>" -> {<<"-", "<U>">>, <<"<R>">>}
    [] n = "<R>" -> {<<v>> : v \in Vars} \cup {<<v>> : v \in Numbers} \cup {<<v>> : v \in Consts}
                    \cup {<<f, "(", "<E>", ")">> : f \in Funcs} \cup {<<"(", "<E>", ")">>, <<"(", "<A>", ")">>}
    [] n = "<B>" -> {<<"<X>">>, <<"<B>", "|", "<X>">>}
    [] n = "<X>" -> {<<"<N>">>, <<"<X>", "^", "<N>">>}
    [] n = "<N>" -> {<<"<O>">>, <<"<N>", "&", "<O>">>}
    [] n = "<O>" -> {<<"<C>">>, <<"!", "<O>">>}
    [] n = "<C>" -> {<<"<c>", o, "<c>">> : o \in CmpOps} \cup {<<"true">>, <<"false">>, <<"(", "<B>", ")">>}
    [] n = "<c>" -> {<<"<R>">>, <<"-", "<R>">>, <<"<R>", "*", "-", "<R>">>, <<"<R>", "+", "<R>">>,
                     <<"<R>", "-", "<R>">>, <<"<R>", "%", "<R>">>, <<"<R>", "/", "<R>">>}
ProdShort(n) ==
  CASE n = "<E>" -> {<<"<A>">>, <<"<T>">>}
    [] n = "<M>" -> {<<"<A>">>}
    [] n = "<A>" -> {<<"<T>">>}
    [] n = "<T>" -> {<<"<P>">>}
    [] n = "<P>" -> {<<"<U>">>}
    [] n = "<U>" -> {<<"<R>">>}
    [] n = "<R>" -> {<<v>> : v \in Vars \cup {"2", "1e2", "2e-1", "e"}}
    [] n = "<B>" -> {<<"<X>">>}
    [] n = "<X>" -> {<<"<N>">>}
    [] n = "<N>" -> {<<"<O>">>}
    [] n = "<O>" -> {<<"<C>">>}
    [] n = "<C>" -> {<<"<c>", o, "<c>">> : o \in CmpOps}
    [] n = "<c>" -> {<<"<R>">>}

Pending(f) == {k \in 1..Len(f) : f[k] \in NT}
First(f) == CHOOSE k \in Pending(f) : \A j \in Pending(f) : k <= j

Expand ==
  /\ phase = "derive" /\ Pending(form) # {}
  /\ LET k == First(form)
         prods == IF Len(form) < MaxTok THEN ProdAll(form[k]) ELSE ProdShort(form[k])
     IN \E pr \in prods :
          form' = SubSeq(form, 1, k - 1) \o pr \o SubSeq(form, k + 1, Len(form))
  /\ UNCHANGED <<phase, muts>>

Complete ==
  /\ phase = "derive" /\ Pending(form) = {}
  /\ phase' = "edit"
  /\ UNCHANGED <<form, muts>>

\* a separate action, so that -simulate emits only the behaviour it walks
Finish == phase = "edit" /\ phase' = "done" /\ UNCHANGED <<form, muts>>

AllToks == Numbers \cup Consts \cup Vars \cup Funcs \cup CmpOps
           \cup {"(", ")", "+", "-", "*", "/", "^", "%", "?", ":", "&", "|", "!", "true", "false"}
EditToks == {"x", "2", "(", ")", "+", "-", "*", "/", "^", "%", "?", ":", "&", "|", "!", ">", "==", "sin", "true", "e"}

DeleteAt(k) == SubSeq(form, 1, k - 1) \o SubSeq(form, k + 1, Len(form))
Edit ==
  /\ phase = "edit" /\ Len(form) >= 1 /\ muts < MaxMut
  /\ \E k \in 1..Len(form) :
       \/ form' = DeleteAt(k)
       \/ form' = SubSeq(form, 1, k) \o SubSeq(form, k, Len(form))
       \/ \E c \in EditToks : form' = [form EXCEPT ![k] = c]
       \/ \E c \in EditToks : form' = SubSeq(form, 1, k) \o <<c>> \o SubSeq(form, k + 1, Len(form))
       \/ k < Len(form) /\ form' = [form EXCEPT ![k] = form[k + 1], ![k + 1] = form[k]]
  /\ muts' = muts + 1
  /\ UNCHANGED phase

InitDerive == form = <<"<E>">> /\ phase = "derive" /\ muts = 0
SpecDerive == InitDerive /\ [][Expand \/ Complete \/ Edit \/ Finish]_vars

\* long sentences: terms joined to a sentence that is already there, on either
\* side, and parentheses around it (muts counts the terms)
Terms == {<<v>> : v \in Vars \cup {"1", "2", "0.5", "3", ".25"}} \cup {<<f, "(", v, ")">> : f \in {"sin", "cos", "exp", "abs"}, v \in Vars}
         \cup {<<"(", v, o, c, ")">> : v \in {"x", "t"}, o \in {"+", "*", "-"}, c \in {"2", "0.5", "y"}} \cup {<<"2", "*", v>> : v \in Vars}
Lengthen == /\ phase = "derive" /\ muts < MaxMut /\ muts' = muts + 1 /\ UNCHANGED phase
        /\ \/ \E w \in Terms : \E o \in {"+", "-"} : form' = form \o <<o>> \o w
           \/ \E w \in Terms : \E o \in {"+", "-"} : form' = w \o <<o>> \o form
           \/ \E f \in {"sin", "cos", "atan", "erf", ""} : form' = (IF f = "" THEN <<>> ELSE <<f>>) \o <<"(">> \o form \o <<")">>
           \/ \E f \in {"sin", "cos", "atan", "erf"} : form' = <<"-", f, "(">> \o form \o <<")">>
           \/ form' = <<"(">> \o form \o <<")", "*", "x", "+", "2">>
           \/ \E v \in Vars : \E c \in {">", "<="} : form' = <<v, c, "0.5", "?">> \o form \o <<":", "y">>
Enough == phase = "derive" /\ muts = MaxMut /\ phase' = "edit" /\ UNCHANGED <<form, muts>>
SpecLong == (form = <<"x">> /\ phase = "derive" /\ muts = 0) /\ [][Lengthen \/ Enough \/ Finish]_vars

-----------------------------------------------------------------------------
InitAll == form = <<>> /\ phase = "done" /\ muts = 0
Append1 == Len(form) < MaxLen /\ \E c \in Alphabet : form' = Append(form, c) /\ UNCHANGED <<phase, muts>>
SpecAll == InitAll /\ [][Append1]_vars

Sentence == Pre \o form \o Post
\* a literal with an explicit plus sign ("+3") is left unspecified
PlusLiteral == \E k \in 1..Len(Sentence) - 1 : Sentence[k] = "+" /\ Sentence[k + 1] \in Numbers
                 /\ (k = 1 \/ Sentence[k - 1] \notin Numbers \cup Consts \cup Vars \cup {")"})
Result == LET r == Parse(Sentence) IN [t |-> Sentence, ok |-> r.ok, p |-> r.p, m |-> muts, u |-> PlusLiteral]
EmitInv == phase = "done" => PrintT("BEH " \o ToJson(Result))

-----------------------------------------------------------------------------
(* Properties of the language itself, checked on every state.                *)
\* every derivable sentence is recognised
Derivable == (phase = "done" /\ muts \in {0, MaxTok} /\ Pre = <<>> /\ Post = <<>> /\ MaxTok > 0) => Parse(form).ok
\* the postfix program of a recognised sentence leaves exactly one value
Arity(c) == IF c \in {"+", "-", "*", "/", "^", "%", "|", "xor", "&"} \cup CmpOps THEN 2
            ELSE IF c = "?:" THEN 3
            ELSE IF c \in {"neg", "!"} \cup {"f:" \o f : f \in Funcs} THEN 1 ELSE 0
RECURSIVE Depth(_, _)
Depth(p, k) == IF k = 0 THEN 0 ELSE Depth(p, k - 1) + 1 - Arity(p[k])
WellFormed == phase = "done" =>
                LET r == Parse(Sentence) IN
                r.ok => (Depth(r.p, Len(r.p)) = 1 /\ \A k \in 1..Len(r.p) : Depth(r.p, k) >= 1)
\* unbalanced parentheses are never a sentence
Count(s, c) == Cardinality({k \in 1..Len(s) : s[k] = c})
Balanced == (phase = "done" /\ Parse(Sentence).ok) => Count(Sentence, "(") = Count(Sentence, ")")
                                                    /\ Count(Sentence, "?") = Count(Sentence, ":")
=============================================================================
