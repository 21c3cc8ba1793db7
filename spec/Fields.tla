------------------------------- MODULE Fields --------------------------------
(* The field registry.                                                       *)
(*                                                                           *)
(* A field is a label with an id; a value is stored under a place: the       *)
(* relation (node, element, integration point), the block, the field, and    *)
(* for integration points the time state, old or new.  Registering gives an  *)
(* id for the label, always the same; operations on one place change no      *)
(* other; advancing makes the new values the old ones.                       *)
(*                                                                           *)
(* The two back ends differ in what they can store: "host" keeps nodal       *)
(* fields and, declared once, fields of elements under labels with an        *)
(* integration point prefix (labels differing in case only are one field);   *)
(* "device" keeps the three relations, which may use one label each.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXOPS

VARIABLES act, be, ids, store, stale, declared, ops
vars == <<act, be, ids, store, stale, declared, ops>>

Rnd(S) == RandomElement(S)
Comps(len) == CASE len = "scalar" -> 1 [] len = "vector" -> 3 [] len = "sym" -> 6 [] len = "full" -> 9 [] len = "4" -> 4
CompNames(l, len) == CASE len = "scalar" -> <<l>>
    [] len = "vector" -> <<l \o "_x", l \o "_y", l \o "_z">>
    [] len = "sym" -> <<l \o "_xx", l \o "_yy", l \o "_zz", l \o "_xy", l \o "_yz", l \o "_zx">>
    [] len = "full" -> <<l \o "_xx", l \o "_yy", l \o "_zz", l \o "_xy", l \o "_yz", l \o "_zx", l \o "_yx", l \o "_zy", l \o "_xz">>
    [] len = "4" -> <<l \o "_1", l \o "_2", l \o "_3", l \o "_4">>
NodeLabels == IF be = "host" THEN {"alpha", "Alpha", "beta", "gamma", "GAMMA_2"} ELSE {"a", "A", "b", "stress", "a_x"}
Canon(l) == IF be = "host" /\ l = "Alpha" THEN "alpha" ELSE l
Points == 8
Stems == {"f", "gg"}
Prefixes == {"ipt01_", "ipt02_", "ipt11_"}

\* a stored array: a rule for the untouched entries and the entries set since
Size(s) == s.n * Comps(s.len) * (IF s.rel = "ipt" /\ be = "device" THEN Points ELSE 1)
At(s, v, i) == IF i \in DOMAIN v.sets THEN v.sets[i]
               ELSE IF v.rule = "ramp" THEN v.v + i ELSE IF v.rule = "init" THEN v.init[(i % Comps(s.len)) + 1] ELSE 0
Zero == [rule |-> "zero", v |-> 0, init |-> <<>>, sets |-> <<>>]
Ramp(x) == [rule |-> "ramp", v |-> x, init |-> <<>>, sets |-> <<>>]
Of(init) == IF init = <<>> THEN Zero ELSE [rule |-> "init", v |-> 0, init |-> init, sets |-> <<>>]
Put(v, i, x) == [v EXCEPT !.sets = [k \in (DOMAIN v.sets) \cup {i} |-> IF k = i THEN x ELSE v.sets[k]]]
Place(rel, b, l) == <<rel, b, Canon(l)>>
Keys == DOMAIN store
Id(l) == IF Canon(l) \in DOMAIN ids THEN ids[Canon(l)] ELSE Cardinality(DOMAIN ids)
Reg(l) == [x \in (DOMAIN ids) \cup {Canon(l)} |-> IF x = Canon(l) THEN Id(l) ELSE ids[x]]
Log(o, a) == ops' = Append(ops, [o |-> o, a |-> a])
Same == UNCHANGED <<act, be, declared>>
Open == act = "ops" /\ Len(ops) < MAXOPS
\* whether a label may be used for a place without contradicting itself
Fits(rel, b, l, len, n) == Place(rel, b, l) \in Keys => LET s == store[Place(rel, b, l)] IN s.len = len /\ s.n = n
Used(rel) == {k[3] : k \in {q \in Keys : q[1] = rel}}
LenOf(rel, l) == LET k == CHOOSE q \in Keys : q[1] = rel /\ q[3] = Canon(l) IN store[k].len

-----------------------------------------------------------------------------
Init == act = "start" /\ be = "" /\ ids = <<>> /\ store = <<>> /\ stale = {} /\ declared = <<>> /\ ops = <<>>

Begin == act = "start" /\ \E b \in {Rnd({"host", "device"})} : be' = b /\ act' = "ops" /\ UNCHANGED <<ids, store, stale, declared, ops>>

\* every registration is followed at once by a write, so a registration
\* repeated is free to keep or to renew its values
Register == Open /\ \E l \in {Rnd(NodeLabels)} : \E n \in {Rnd(0..4)} : \E x \in {Rnd(-50..50)} : \E c0 \in {Rnd(0..3)} :
    \E rel \in {IF be = "host" \/ c0 < 2 THEN "node" ELSE IF c0 = 2 THEN "elem" ELSE "ipt"} :
    \E b \in {IF rel = "node" THEN 0 ELSE Rnd({1, 4})} :
    \E len \in {Rnd(IF rel = "node" THEN (IF be = "host" THEN {"scalar", "vector", "vector", "sym", "full", "4"} ELSE {"scalar", "vector"})
                    ELSE IF rel = "elem" THEN {"scalar", "sym", "full"} ELSE {"scalar", "vector", "sym", "full"})} :
    \E init \in {IF rel = "ipt" /\ Rnd({TRUE, FALSE}) THEN TLCEval([q \in 1..Comps(len) |-> Rnd(-9..9)]) ELSE <<>>} :
      LET k == Place(rel, b, l)
          had == k \in Keys
          e == IF had THEN store[k] ELSE [rel |-> rel, block |-> b, label |-> l, len |-> len, n |-> n, new |-> Of(init), old |-> Of(init)]
          again == [e EXCEPT !.new = Ramp(x)] IN
      /\ store' = [q \in Keys \cup {k} |-> IF q = k THEN (IF had THEN again ELSE e) ELSE store[q]]
      /\ ids' = Reg(l) /\ stale' = stale
      /\ ops' = ops \o <<[o |-> [op |-> rel, label |-> l, len |-> e.len, n |-> e.n, block |-> b, init |-> init], a |-> Id(l)]>>
                    \o (IF had THEN <<[o |-> [op |-> "fill", rel |-> rel, block |-> b, label |-> e.label, v |-> x], a |-> 0]>> ELSE <<>>)
      /\ (had /\ rel = "ipt") => FALSE         \* the old values would be undefined
      /\ Same

\* the host's element fields, once
Declare == Open /\ be = "host" /\ declared = <<>>
    /\ \E f \in {TLCEval([q \in Stems |-> Rnd({"scalar", "vector", "sym", "full"})])} : \E nb \in {Rnd(1..2)} :
       \E bids \in {Rnd({<<1, 2>>, <<7, 3>>, <<2, 40>>})} :
       \E bl \in {TLCEval([q \in 1..nb |-> [id |-> bids[q], n |-> Rnd(0..3),
                           stems |-> TLCEval(Rnd({<<"f">>, <<"gg">>, <<"f", "gg">>, <<"gg", "f">>})), pre |-> TLCEval(Rnd({<<"ipt01_">>, <<"ipt01_", "ipt02_">>, <<"ipt11_", "ipt01_">>}))]])} :
         LET fields(q) == [i \in 1..(Len(q.pre) * Len(q.stems)) |->
                             LET p == q.pre[((i - 1) \div Len(q.stems)) + 1] s == q.stems[((i - 1) % Len(q.stems)) + 1]
                             IN [label |-> p \o s, len |-> f[s], stem |-> s]]
             new == {<<q, i>> : q \in 1..nb, i \in 1..4}
             some == {z \in new : z[2] \in DOMAIN fields(bl[z[1]])}
             entry(z) == LET q == bl[z[1]] w == fields(q)[z[2]] IN
                         [rel |-> "ipt", block |-> q.id, label |-> w.label, len |-> w.len, n |-> q.n, new |-> Zero, old |-> Zero]
             labels == {entry(z).label : z \in some}
         IN /\ store' = [k \in Keys \cup {<<"ipt", entry(z).block, entry(z).label>> : z \in some} |->
                           IF k \in Keys THEN store[k] ELSE entry(CHOOSE z \in some : k = <<"ipt", entry(z).block, entry(z).label>>)]
            /\ declared' = [blocks |-> [q \in 1..nb |-> [id |-> bl[q].id, n |-> bl[q].n, fields |-> fields(bl[q])]], len |-> f]
            /\ ids' = [l \in DOMAIN ids \cup labels |-> IF l \in DOMAIN ids THEN ids[l] ELSE Cardinality(DOMAIN ids) + Cardinality({m \in labels : m # l /\ (CHOOSE z \in {<<m, l>>, <<l, m>>} : TRUE)[1] = m})]
            /\ Log([op |-> "declare", blocks |-> [q \in 1..nb |-> [id |-> bl[q].id, n |-> bl[q].n, fields |-> fields(bl[q])]]], 0)
    /\ UNCHANGED <<act, be, stale>>

Look == Open /\ \E l \in {Rnd(NodeLabels \cup {"nothing", "ipt01_f", "f", "", "stress_xx"})} :
        /\ Log([op |-> "look", label |-> l], IF Canon(l) \in DOMAIN ids THEN ids[Canon(l)] ELSE -1)
        /\ UNCHANGED <<ids, store, stale>> /\ Same

Fill == Open /\ Keys # {} /\ \E k \in {Rnd(IF stale # {} THEN stale ELSE Keys)} : \E x \in {Rnd(-99..99)} :
        /\ store' = [store EXCEPT ![k].new = Ramp(x)]
        /\ stale' = stale \ {k}
        /\ Log([op |-> "fill", rel |-> k[1], block |-> k[2], label |-> store[k].label, v |-> x], 0)
        /\ UNCHANGED ids /\ Same
Set == Open /\ {k \in Keys \ stale : Size(store[k]) > 0} # {}
       /\ \E k \in {Rnd({q \in Keys \ stale : Size(store[q]) > 0})} : \E x \in {Rnd(100..200)} : \E o \in {Rnd({TRUE, FALSE, FALSE})} :
          \E i \in {Rnd(0..(Size(store[k]) - 1))} :
            LET old == o /\ k[1] = "ipt" IN
            /\ store' = (IF old THEN [store EXCEPT ![k].old = Put(store[k].old, i, x)] ELSE [store EXCEPT ![k].new = Put(store[k].new, i, x)])
            /\ Log([op |-> "set", rel |-> k[1], block |-> k[2], label |-> store[k].label, old |-> old, i |-> i, v |-> x], 0)
            /\ UNCHANGED <<ids, stale>> /\ Same

Advance == Open /\ be = "host" /\ declared # <<>> /\ stale = {}
        /\ store' = [k \in Keys |-> IF k[1] = "ipt" THEN [store[k] EXCEPT !.old = store[k].new] ELSE store[k]]
        /\ stale' = {k \in Keys : k[1] = "ipt"}
        /\ Log([op |-> "advance"], 0) /\ UNCHANGED ids /\ Same

\* element-wise copies of nodal values, and sums back
Nodal == {k \in Keys : k[1] = "node" /\ store[k].n > 0}
Gather == Open /\ be = "device" /\ Nodal # {} /\ \E k \in {Rnd(Nodal)} : \E ne \in {Rnd(0..2)} :
    \E c \in {TLCEval([q \in 1..(8 * ne) |-> Rnd(0..(store[k].n - 1))])} :
      LET d == Comps(store[k].len) IN
      /\ Log([op |-> "gather", rel |-> k[1], block |-> 0, label |-> store[k].label, conn |-> c],
             [i \in 1..(8 * ne * d) |-> At(store[k], store[k].new, c[((i - 1) \div d) + 1] * d + ((i - 1) % d))])
      /\ UNCHANGED <<ids, store, stale>> /\ Same
RECURSIVE SumOver(_, _, _, _, _, _)
SumOver(c, d, x, i, q, acc) == IF q > Len(c) THEN acc
    ELSE SumOver(c, d, x, i, q + 1, IF c[q] = (i \div d) THEN acc + x + (q - 1) * d + (i % d) ELSE acc)
Scatter == Open /\ be = "device" /\ Nodal # {} /\ \E k \in {Rnd(Nodal)} : \E ne \in {Rnd(1..2)} : \E x \in {Rnd(-20..20)} : \E w \in {Rnd({TRUE, FALSE})} :
    \E c \in {TLCEval([q \in 1..(8 * ne) |-> Rnd(0..(store[k].n - 1))])} :
      LET d == Comps(store[k].len) IN
      /\ store' = [store EXCEPT ![k].new = [rule |-> "zero", v |-> 0, init |-> <<>>,
                     sets |-> [i \in 0..(store[k].n * d - 1) |-> At(store[k], store[k].new, i) + SumOver(c, d, x, i, 1, 0)]]]
      /\ Log([op |-> "scatter", rel |-> k[1], block |-> 0, label |-> store[k].label, conn |-> c, v |-> x, view |-> w], 0)
      /\ UNCHANGED <<ids, stale>> /\ Same

View(k, v) == [rel |-> k[1], block |-> k[2], label |-> store[k].label, size |-> Size(store[k]), comps |-> Comps(store[k].len),
               rule |-> v.rule, v |-> v.v, init |-> v.init, at |-> {<<i, v.sets[i]>> : i \in DOMAIN v.sets}]
Dump == Open /\ Keys # {} /\ ops[Len(ops)].o.op # "dump" /\ Log([op |-> "dump"], [new |-> {View(k, store[k].new) : k \in Keys \ stale},
                                     old |-> {View(k, IF k[1] = "ipt" THEN store[k].old ELSE store[k].new) : k \in Keys}])
        /\ UNCHANGED <<ids, store, stale>> /\ Same

Labels == Open /\ be = "device" /\ Len(ops) > 3 /\ ops[Len(ops)].o.op # "labels" /\ Log([op |-> "labels"],
             [scalar |-> {k[3] : k \in {q \in Keys : q[1] = "node" /\ store[q].len = "scalar"}},
              vector |-> {k[3] : k \in {q \in Keys : q[1] = "node" /\ store[q].len = "vector"}},
              blocks |-> {k[2] : k \in {q \in Keys : q[1] = "ipt"}},
              sym |-> {<<k[2], k[3]>> : k \in {q \in Keys : q[1] = "ipt" /\ store[q].len = "sym"}},
              full |-> {<<k[2], k[3]>> : k \in {q \in Keys : q[1] = "ipt" /\ store[q].len = "full"}}])
        /\ UNCHANGED <<ids, store, stale>> /\ Same

\* ---- what the host's output requests mean: asked for once, at the end
Asked == \* <<kind, what, label, length>>
    {<<"node", k>> : k \in {q \in Keys : q[1] = "node"}}
    \cup (IF declared = <<>> THEN {} ELSE {<<"ipt", <<p, s>>>> : p \in Prefixes, s \in Stems} \cup {<<"avg", s>> : s \in Stems} \cup {<<"volume", 0>>})
Present(a) == IF a[1] = "ipt" THEN \E k \in Keys : k[1] = "ipt" /\ k[3] = a[2][1] \o a[2][2]
              ELSE IF a[1] = "avg" THEN \E q \in 1..Len(declared.blocks) : \E i \in DOMAIN declared.blocks[q].fields : declared.blocks[q].fields[i].stem = a[2]
              ELSE TRUE
Names(a) == IF a[1] = "node" THEN CompNames(store[a[2]].label, store[a[2]].len)
            ELSE IF a[1] = "ipt" THEN CompNames(a[2][1] \o a[2][2], declared.len[a[2][2]])
            ELSE IF a[1] = "avg" THEN CompNames(a[2], declared.len[a[2]]) ELSE <<"volume">>
Whole(a) == IF a[1] = "node" THEN store[a[2]].label ELSE IF a[1] = "ipt" THEN a[2][1] \o a[2][2] ELSE IF a[1] = "avg" THEN a[2] ELSE "volume"
RECURSIVE Pick(_, _)
Pick(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(Rnd(S)) IN <<x>> \o Pick(S \ {x}, k - 1)
RECURSIVE Cat(_, _)
Cat(f(_), s) == IF s = <<>> THEN <<>> ELSE f(Head(s)) \o Cat(f, Tail(s))
Output == act = "ops" /\ be = "host" /\ stale = {} /\ Len(ops) > 14 /\ act' = "closing"
    /\ \E k \in {Rnd(0..5)} : \E r \in {TLCEval(Pick({a \in Asked : Present(a)}, k))} :
       \E pick \in {TLCEval([i \in 1..Len(r) |-> Rnd(0..Len(Names(r[i])))])} :
         LET lab(i) == IF pick[i] = 0 THEN Names(r[i]) ELSE <<Names(r[i])[pick[i]]>>
             req(i) == IF pick[i] = 0 THEN Whole(r[i]) ELSE Names(r[i])[pick[i]]
             comp(i) == IF pick[i] = 0 THEN [j \in 1..Len(Names(r[i])) |-> j - 1] ELSE <<pick[i] - 1>>
             idx == [i \in 1..Len(r) |-> i]
             col(s, j) == [o \in 1..s.n |-> At(s, s.new, (o - 1) * Comps(s.len) + j)]
             has(b, i) == r[i][1] = "ipt" /\ <<"ipt", b, Whole(r[i])>> \in Keys
             in(b, i) == r[i][1] = "volume" \/ (r[i][1] = "avg" /\ \E q \in 1..Len(declared.blocks) : declared.blocks[q].id = b
                            /\ \E f \in DOMAIN declared.blocks[q].fields : declared.blocks[q].fields[f].stem = r[i][2])
             bs == IF declared = <<>> THEN {} ELSE {declared.blocks[q].id : q \in 1..Len(declared.blocks)}
         IN Log([op |-> "output", req |-> [i \in 1..Len(r) |-> req(i)]],
                [node |-> Cat(LAMBDA i : IF r[i][1] = "node" THEN lab(i) ELSE <<>>, idx),
                 node_values |-> Cat(LAMBDA i : IF r[i][1] = "node" THEN [j \in 1..Len(comp(i)) |-> col(store[r[i][2]], comp(i)[j])] ELSE <<>>, idx),
                 elem |-> {[b |-> b, labels |-> Cat(LAMBDA i : IF has(b, i) THEN lab(i) ELSE <<>>, idx),
                            values |-> Cat(LAMBDA i : IF has(b, i) THEN [j \in 1..Len(comp(i)) |-> col(store[<<"ipt", b, Whole(r[i])>>], comp(i)[j])] ELSE <<>>, idx)] : b \in bs},
                 derived |-> {[b |-> b, labels |-> Cat(LAMBDA i : IF in(b, i) THEN lab(i) ELSE <<>>, idx)] : b \in bs}])
    /\ UNCHANGED <<be, ids, store, stale, declared>>
CloseDevice == act = "ops" /\ be = "device" /\ Len(ops) > 14 /\ act' = "closing" /\ UNCHANGED <<be, ids, store, stale, declared, ops>>
Finish == act = "closing" /\ act' = "done" /\ UNCHANGED <<be, ids, store, stale, declared, ops>>

Next == Begin \/ Register \/ Declare \/ Look \/ Fill \/ Set \/ Advance \/ Gather \/ Scatter \/ Dump \/ Labels \/ Output \/ CloseDevice \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* one id per label
Injective == act = "done" => \A a, b \in DOMAIN ids : ids[a] = ids[b] => a = b
\* an id once given stays
Stable == [][\A l \in DOMAIN ids : l \in DOMAIN ids' /\ ids'[l] = ids[l]]_vars
\* an operation on one place leaves every other place as it was
Apart == [][\A k \in Keys : store'[k] # store[k] => (Len(ops') > Len(ops) /\ LET o == ops'[Len(ops) + 1].o IN
              o.op = "advance" \/ (IF o.op \in {"node", "elem", "ipt"} THEN Place(o.op, o.block, o.label) = k
                                   ELSE o.op \in {"fill", "set", "scatter"} /\ <<o.rel, o.block, Canon(o.label)>> = k))]_vars
\* advancing: what was new is old
Advanced == [][Len(ops') > Len(ops) /\ ops'[Len(ops')].o.op = "advance" => \A k \in Keys : k[1] = "ipt" => store'[k].old = store[k].new]_vars
Emit == act = "done" => PrintT("BEH " \o ToJson([be |-> be, ops |-> ops]))
=============================================================================
