------------------------------- MODULE Graph --------------------------------
(* The coupling of degrees of freedom by a mesh: two nodes are coupled when  *)
(* an element has both.  Nodes may carry any numbers of the linear system,   *)
(* also the same one twice; nodes of no element are coupled to nothing.      *)
(* The elements may be spread over ranks; each rank then has the couplings   *)
(* of its own elements, and together these are those of the mesh.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXN, MAXE, MAXB, MAXR
VARIABLES act, nn, elems, num
vars == <<act, nn, elems, num>>
Rnd(S) == RandomElement(S)
RECURSIVE Pick(_, _)
Pick(k, S) == IF k = 0 THEN <<>> ELSE LET x == TLCEval(Rnd(S)) IN <<x>> \o Pick(k - 1, S \ {x})
Init == act = "size" /\ nn = 0 /\ elems = <<>> /\ num = <<>>
Size == act = "size" /\ \E k \in {Rnd(8..MAXN)} : \E merge \in {Rnd(1..4)} :
        /\ nn' = k /\ act' = "grow" /\ elems' = <<>>
        /\ \E p \in {Pick(k, 0..(k - 1))} :
             num' = (IF merge > 1 THEN p ELSE TLCEval([i \in 1..k |-> p[i] - (p[i] % 2)]))
\* no rank is without elements
Ranks == {elems[k].r : k \in 1..Len(elems)}
NextRanks == 1..(IF Cardinality(Ranks) < MAXR THEN Cardinality(Ranks) + 1 ELSE MAXR)
Grow == act = "grow" /\ Len(elems) < MAXE /\ \E e \in {[b |-> Rnd(1..MAXB), c |-> Pick(8, 1..nn), r |-> Rnd(NextRanks)]} : elems' = Append(elems, e) /\ UNCHANGED <<act, nn, num>>
Stop == act = "grow" /\ Len(elems) > 0 /\ act' = "done" /\ UNCHANGED <<nn, elems, num>>
Next == Size \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars

Nodes(e) == {e.c[k] : k \in 1..8}
Coupled == UNION {{<<num[a], num[b]>> : a \in Nodes(elems[k]), b \in Nodes(elems[k])} : k \in 1..Len(elems)}
On(r) == UNION {{<<a, b>> : a \in Nodes(elems[k]), b \in Nodes(elems[k])} : k \in {j \in 1..Len(elems) : elems[j].r = r}}
Done == act = "done"
Spread == Done => {<<num[p[1]], num[p[2]]>> : p \in UNION {On(r) : r \in Ranks}} = Coupled
NoneIdle == Done => Ranks = 1..Cardinality(Ranks) /\ \A r \in Ranks : On(r) # {}
Symmetric == Done => \A p \in Coupled : <<p[2], p[1]>> \in Coupled
Reflexive == Done => \A k \in 1..Len(elems) : \A a \in Nodes(elems[k]) : <<num[a], num[a]>> \in Coupled
EmitInv == Done => PrintT("BEH " \o ToJson([nn |-> nn, elems |-> elems, num |-> num, pairs |-> Coupled,
                       ranks |-> [r \in Ranks |-> On(r)]]))
=============================================================================
