------------------------------- MODULE Views --------------------------------
(* Views over one storage.                                                   *)
(*                                                                           *)
(* A view is an address map: a strided view of one or two indices, or a run  *)
(* of an array.  It owns nothing: an operation on a view changes the cells   *)
(* of its image, each once, from the values the source held, and no other    *)
(* cell.  The machine makes views - from pointers, ranges, parts of views,   *)
(* partitions - over a storage with a value in every cell and applies        *)
(* operations to them; every operation carries its expected answer.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MAXV, MAXOPS

VARIABLES act, mem, views, ops
vars == <<act, mem, views, ops>>

Rnd(S) == RandomElement(S)
Cells == 0..(N - 1)
\* a view: kind "s1", "s2" (strided, one or two indices) or "a" (array view)
Elems(v) == IF v.kind = "s2" THEN (0..(v.len[1] - 1)) \X (0..(v.len[2] - 1)) ELSE 0..(v.len[1] - 1)
Addr(v, e) == IF v.kind = "s2" THEN v.base + e[1] * v.st[1] + e[2] * v.st[2] ELSE v.base + e * v.st[1]
Image(v) == {Addr(v, e) : e \in Elems(v)}
Size(v) == IF v.kind = "s2" THEN v.len[1] * v.len[2] ELSE v.len[1]
\* the element of a number, with the last index running fastest
Nth(v, k) == IF v.kind = "s2" THEN <<k \div v.len[2], k % v.len[2]>> ELSE k
At(v, k) == Addr(v, Nth(v, k))
Read(v) == TLCEval([k \in 1..Size(v) |-> mem[At(v, k - 1)]])
Fits(v) == v.base >= 0 /\ Image(v) \subseteq Cells /\ Cardinality(Image(v)) = Size(v)
\* writes g(k) into the element k of v
Write(v, g(_)) == TLCEval([c \in Cells |-> IF \E k \in 0..(Size(v) - 1) : At(v, k) = c THEN g(CHOOSE k \in 0..(Size(v) - 1) : At(v, k) = c) ELSE mem[c]])
Apart(v, w) == Image(v) \cap Image(w) = {} \/ (v.base = w.base /\ v.len = w.len /\ v.st = w.st)
Disjoint(v, w) == Image(v) \cap Image(w) = {}
Strided(v) == v.kind \in {"s1", "s2"}
Small(x) == x \in -100000..100000

-----------------------------------------------------------------------------
Init == act = "run" /\ mem = [c \in Cells |-> ((c * 37) % 101) - 50] /\ views = <<>> /\ ops = <<>>

\* a random view: contiguous, padded, or with the first index running fastest
Candidate(kind) == LET n == Rnd(1..5) m == Rnd(1..4) p == Rnd({0, 0, 1, 2}) IN
  IF kind = "s1" THEN [kind |-> "s1", base |-> Rnd(Cells), len |-> <<n>>, st |-> <<Rnd({1, 1, 2, 3})>>]
  ELSE IF kind = "s2" THEN [kind |-> "s2", base |-> Rnd(0..6), len |-> <<n, m>>, st |-> IF Rnd(1..2) = 1 THEN <<m + p, 1>> ELSE IF Rnd(1..3) = 1 THEN <<m * 2, 2>> ELSE <<1, n + p>>]
  ELSE [kind |-> "a", base |-> Rnd(Cells), len |-> <<Rnd(0..7)>>, st |-> <<1>>]
Do(e, m, vs) == /\ Len(ops) < MAXOPS /\ ops' = Append(ops, e) /\ mem' = m /\ views' = vs /\ UNCHANGED act
Go == act = "run" /\ Len(ops) < MAXOPS


Make == Go /\ Len(views) < MAXV /\ \E kind \in {Rnd({"s1", "s2", "a", "a"})} : \E v \in {TLCEval(Candidate(kind))} : \E how \in {Rnd({"count", "start", "range"})} :
  Fits(v) /\ Do([op |-> "make", v |-> v, how |-> how, off |-> v.base, id |-> Len(views) + 1, val |-> Read(v)], mem, Append(views, v))
\* a view of the shape of another one
Twin == Go /\ views # <<>> /\ Len(views) < MAXV /\ \E k \in {Rnd(1..Len(views))} : Strided(views[k]) /\
  \E c \in {TLCEval(Candidate(views[k].kind))} : \E p \in {Rnd(0..2)} :
  LET n == views[k].len
      v == [kind |-> views[k].kind, base |-> c.base, len |-> n, st |-> IF c.kind = "s1" THEN c.st ELSE IF c.st[2] = 1 THEN <<n[2] + p, 1>> ELSE IF c.st[1] = 1 THEN <<1, n[1] + p>> ELSE <<n[2] * 2, 2>>]
  IN Fits(v) /\ Do([op |-> "make", v |-> v, how |-> "count", off |-> v.base, id |-> Len(views) + 1, val |-> Read(v)], mem, Append(views, v))
\* part of an array view, and a part that cannot be written
Sub == Go /\ views # <<>> /\ Len(views) < MAXV /\ \E k \in {Rnd(1..Len(views))} : views[k].kind = "a" /\
  \E s \in {Rnd(0..views[k].len[1])} : \E n \in {Rnd(0..(views[k].len[1] - s))} :
  LET v == [kind |-> "a", base |-> views[k].base + s, len |-> <<n>>, st |-> <<1>>] IN
  Do([op |-> "sub", k |-> k, start |-> s, count |-> n, id |-> Len(views) + 1, val |-> Read(v)], mem, Append(views, v))
Copied == Go /\ views # <<>> /\ Len(views) < MAXV /\ \E k \in {Rnd(1..Len(views))} : Do([op |-> "alias", k |-> k, id |-> Len(views) + 1, val |-> Read(views[k])], mem, Append(views, views[k]))
Set == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : Size(views[k]) > 0 /\ \E q \in {Rnd(0..(Size(views[k]) - 1))} : \E x \in {Rnd(-99..99)} : \E op \in {Rnd({"set", "sum"})} :
  LET a == At(views[k], q) IN Do([op |-> op, k |-> k, e |-> Nth(views[k], q), x |-> x, val |-> <<mem[a]>>], [mem EXCEPT ![a] = IF op = "set" THEN x ELSE @ + x], views)
Get == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : Do([op |-> "get", k |-> k, n |-> Size(views[k]), val |-> Read(views[k])], mem, views)
Zero == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : Strided(views[k]) /\ Do([op |-> "zero", k |-> k], Write(views[k], LAMBDA q : 0), views)
\* two strided views of one shape: copy, and d * v + r * alpha * w
Two == Go /\ Len(views) > 1 /\ \E k \in {Rnd(1..Len(views))} : \E l \in {Rnd(1..Len(views))} : \E op \in {Rnd({"copy", "axpy", "assign"})} :
  LET v == views[k] w == views[l] IN Strided(v) /\ v.kind = w.kind /\ v.len = w.len /\ Apart(v, w) /\
  \E a \in {Rnd({-2, -1, 0, 1, 3})} : \E d \in {Rnd({-1, 0, 1, 2})} : \E r \in {Rnd({1, 2, -3})} :
  LET x == TLCEval(IF op = "copy" THEN <<0, 1>> ELSE IF op = "axpy" THEN <<1, a>> ELSE <<d, a * r>>)
      m == Write(v, LAMBDA q : x[1] * mem[At(v, q)] + x[2] * mem[At(w, q)])
  IN (\A c \in Cells : Small(m[c])) /\ Do([op |-> op, k |-> k, l |-> l, a |-> a, d |-> d, r |-> r], m, views)
\* array views: from and to a sequence, exchange of contents, exchange of the views themselves, a function applied to all
From == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : LET v == views[k] IN v.kind = "a" /\
  \E s \in {TLCEval([q \in 1..Size(v) |-> Rnd(-99..99)])} : Do([op |-> "from", k |-> k, seq |-> s], Write(v, LAMBDA q : s[q + 1]), views)
To == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : views[k].kind = "a" /\ Do([op |-> "to", k |-> k, val |-> Read(views[k])], mem, views)
Exchange == Go /\ Len(views) > 1 /\ \E k \in {Rnd(1..Len(views))} : \E l \in {Rnd(1..Len(views))} :
  LET v == views[k] w == views[l] IN v.kind = "a" /\ w.kind = "a" /\ Size(v) <= Size(w) /\ Disjoint(v, w)
  /\ LET w1 == [w EXCEPT !.len = v.len]
         m == TLCEval([c \in Cells |-> IF c \in Image(v) THEN mem[c - v.base + w.base] ELSE IF c \in Image(w1) THEN mem[c - w.base + v.base] ELSE mem[c]])
     IN Do([op |-> "exchange", k |-> k, l |-> l], m, views)
SwapViews == Go /\ Len(views) > 1 /\ \E k \in {Rnd(1..Len(views))} : \E l \in {Rnd(1..Len(views))} : k # l /\ views[k].kind = "a" /\ views[l].kind = "a"
  /\ Do([op |-> "swap", k |-> k, l |-> l], mem, [views EXCEPT ![k] = views[l], ![l] = views[k]])
Remap == Go /\ views # <<>> /\ \E k \in {Rnd(1..Len(views))} : LET v == views[k] IN v.kind = "a" /\ \E a \in {Rnd({-1, 1, 2})} : \E b \in {Rnd(-3..3)} :
  LET m == Write(v, LAMBDA q : a * mem[At(v, q)] + b) IN (\A c \in Cells : Small(m[c])) /\ Do([op |-> "remap", k |-> k, a |-> a, b |-> b], m, views)
\* the whole storage divided into consecutive parts; sections of a storage of their own
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Parts == Go /\ Rnd(1..5) = 1 /\ \E n \in {Rnd(0..4)} : \E c \in {TLCEval([q \in 1..n |-> Rnd(0..5)])} : Sum(c) <= N /\
  LET b(q) == Sum(SubSeq(c, 1, q - 1)) IN
  Do([op |-> "parts", counts |-> c, val |-> TLCEval([q \in 1..n |-> [i \in 1..c[q] |-> mem[b(q) + i - 1]]])], mem, views)
Sections == Go /\ Rnd(1..5) = 1 /\ \E n \in {Rnd(1..4)} : \E c \in {TLCEval([q \in 1..n |-> Rnd(0..5)])} : \E w \in {TLCEval([i \in 1..6 |-> [s |-> Rnd(1..n), e |-> Rnd(0..4), x |-> Rnd(-99..99)]])} :
  LET ok == TLCEval(SelectSeq(w, LAMBDA y : y.e < c[y.s]))
      last(q, i) == LET h == {j \in 1..Len(ok) : ok[j].s = q /\ ok[j].e = i} IN IF h = {} THEN 7 ELSE ok[CHOOSE j \in h : \A g \in h : g <= j].x
  IN Do([op |-> "sections", counts |-> c, writes |-> ok, val |-> TLCEval([q \in 1..n |-> [i \in 1..c[q] |-> last(q, i - 1)]])], mem, views)
\* a field of n entries with w components: every copy of it sees every write, and its extents are n and w
Fields == Go /\ Rnd(1..5) = 1 /\ \E n \in {Rnd(1..5)} : \E c \in {Rnd({1, 3, 6, 9})} : \E w \in {TLCEval([i \in 1..8 |-> [by |-> Rnd(1..3), n |-> Rnd(0..(n - 1)), c |-> Rnd(0..(c - 1)), x |-> Rnd(-99..99)]])} :
  LET last(i, j) == LET h == {q \in 1..8 : w[q].n = i /\ w[q].c = j} IN IF h = {} THEN 7 ELSE w[CHOOSE q \in h : \A g \in h : g <= q].x
  IN Do([op |-> "fields", n |-> n, c |-> c, writes |-> w, val |-> TLCEval([i \in 1..n |-> [j \in 1..c |-> last(i - 1, j - 1)]])], mem, views)
Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<mem, views, ops>>
Next == Make \/ Twin \/ Sub \/ Copied \/ Set \/ Get \/ Zero \/ Two \/ From \/ To \/ Exchange \/ SwapViews \/ Remap \/ Parts \/ Sections \/ Fields \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every view stays inside the storage and names every one of its cells once
Inside == \A k \in 1..Len(views) : Fits(views[k])
\* an operation on a view leaves the cells outside its image alone
Outside == [][\A c \in Cells : mem'[c] # mem[c] => LET e == ops'[Len(ops')] IN c \in Image(views[e.k]) \/ (e.op = "exchange" /\ c \in Image(views[e.l]))]_vars
\* views of one image see one content
Shared == act = "done" => \A k, l \in 1..Len(views) : (views[k].base = views[l].base /\ views[k].len = views[l].len /\ views[k].st = views[l].st) => Read(views[k]) = Read(views[l])
\* nothing is lost by an exchange
Emission == [n |-> N, ops |-> ops, final |-> [c \in 1..N |-> mem[c - 1]]]
EmitInv == act = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
