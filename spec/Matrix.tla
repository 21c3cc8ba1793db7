------------------------------- MODULE Matrix -------------------------------
(* A stored matrix is a function on its pattern.                             *)
(*                                                                           *)
(* The machine allocates a matrix - compressed rows with a pattern of its    *)
(* own, or dense - and applies operations to it; every operation carries its *)
(* expected answer.  Entries outside the pattern are refused and change      *)
(* nothing.  A second kind of behaviour constrains a right-hand side and a   *)
(* matrix by boundary conditions: the rows and columns of the constrained    *)
(* degrees of freedom are those of a multiple of the identity.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXN, MAXOPS, MAXNODES, MAXBC

VARIABLES act, n, pat, m, ops, bc
vars == <<act, n, pat, m, ops, bc>>

Rnd(S) == RandomElement(S)
Idx == 0..(n - 1)
Grid(k) == (0..(k - 1)) \X (0..(k - 1))
Has(i, j) == <<i, j>> \in pat
Val(i, j) == IF Has(i, j) THEN m[<<i, j>>] ELSE 0
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k < 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Times(v) == [i \in 1..n |-> SumTo(LAMBDA j : Val(i - 1, j) * v[j + 1], n - 1)]

\* ---- containers
NewVal(p, e) == IF e.op = "all" THEN e.v ELSE IF e.op = "row" /\ p[1] = e.i THEN e.v ELSE IF e.op = "col" /\ p[2] = e.j THEN e.v
                ELSE IF e.op = "set" /\ p = <<e.i, e.j>> THEN e.v ELSE IF e.op = "sum" /\ p = <<e.i, e.j>> THEN m[p] + e.v ELSE m[p]
Answer(e) == IF e.op \in {"set", "sum", "get"} /\ ~Has(e.i, e.j) THEN [refused |-> TRUE, val |-> <<>>]
             ELSE IF e.op = "get" THEN [refused |-> FALSE, val |-> <<m[<<e.i, e.j>>]>>]
             ELSE IF e.op = "mul" THEN [refused |-> FALSE, val |-> Times(e.vec)]
             ELSE [refused |-> FALSE, val |-> <<>>]

\* ---- conditions: [type, coord, set] with set 0 unknown; tractions name side sets
Kin == {"prescribed_displacement", "prescribed_velocity"}
Dof(node, c) == 3 * bc.gid[node] + c
Constrained == {Dof(p, b.c) : <<p, b>> \in {q \in (1..bc.nodes) \X {bc.list[k] : k \in 1..Len(bc.list)} :
                                 q[2].type \in Kin /\ q[2].set > 0 /\ q[1] \in bc.sets[q[2].set]}}
Rhs1 == [k \in 1..(3 * bc.nodes) |-> IF k - 1 \in Constrained THEN 0 ELSE bc.rhs[k]]
\* the pattern couples all degrees of freedom of two nodes or none
NodePairs == bc.pairs
InPat(i, j) == <<i \div 3, j \div 3>> \in NodePairs
Entry(i, j) == 7 * i - 5 * j + ((i * j) % 11) + 100      \* any filling
Entry1(i, j) == IF i \in Constrained \/ j \in Constrained THEN (IF i = j THEN bc.diag ELSE 0) ELSE Entry(i, j)
Dofs == 0..(3 * bc.nodes - 1)

-----------------------------------------------------------------------------
Init == act = "start" /\ n = 0 /\ pat = {} /\ m = <<>> /\ ops = <<>> /\ bc = <<>>

Alloc == act = "start" /\ \E k \in {Rnd(1..MAXN)} : \E dense \in {Rnd({TRUE, FALSE, FALSE})} : \E d \in {Rnd({1, 2, 3})} :
         \E p \in {IF dense THEN Grid(k) ELSE TLCEval({q \in Grid(k) : Rnd(1..4) > d} \cup {<<k - 1, Rnd(0..(k - 1))>>})} :
           /\ n' = k /\ pat' = p /\ m' = [q \in p |-> 0] /\ act' = "ops" /\ ops' = <<>>
           /\ bc' = [dense |-> dense] 
\* numbers of nodes, sets of nodes, conditions
Constrain == act = "start" /\ \E k \in {Rnd(1..MAXNODES)} : \E s \in {Rnd(1..3)} : \E nb \in {Rnd(0..MAXBC)} :
             \E perm \in {Rnd({f \in [1..k -> 0..(k - 1)] : \A a, b \in 1..k : a # b => f[a] # f[b]})} :
             bc' = TLCEval([nodes |-> k, gid |-> perm, sets |-> TLCEval([q \in 1..s |-> TLCEval({x \in 1..k : Rnd(1..3) = 1})]),
                    list |-> [q \in 1..nb |-> [type |-> Rnd(Kin \cup {"initial_velocity", "prescribed_traction"}), c |-> Rnd(0..2), set |-> Rnd(0..s)]],
                    rhs |-> [q \in 1..(3 * k) |-> Rnd(-9..9)], diag |-> Rnd(1..50),
                    pairs |-> LET full == TLCEval(Rnd({TRUE, FALSE})) off == TLCEval({q \in Grid(k) : q[1] < q[2] /\ (full \/ Rnd(1..2) = 1)})
                              IN TLCEval(off \cup {<<q[2], q[1]>> : q \in off} \cup {<<q, q>> : q \in 0..(k - 1)})])
             /\ act' = "constrained" /\ UNCHANGED <<n, pat, m, ops>>
Step == act = "ops" /\ Len(ops) < MAXOPS /\ bc # <<>>
        /\ \E d \in {[op |-> Rnd({"all", "row", "col", "set", "set", "set", "sum", "sum", "get", "mul"}), i |-> Rnd(Idx), j |-> Rnd(Idx), out |-> Rnd(0..9),
                     v |-> Rnd(-9..9), vec |-> [q \in 1..n |-> Rnd(-5..5)]]} :
           \E e \in {IF bc.dense \/ d.op \notin {"set", "sum", "get"} THEN d      \* compressed rows: also indices outside the matrix
                    ELSE IF d.out = 0 THEN [d EXCEPT !.i = Rnd({-1, n, n + 3})] ELSE IF d.out = 1 THEN [d EXCEPT !.j = Rnd({-1, n})] ELSE d} :
             LET a == Answer(e) IN
             /\ ops' = Append(ops, [e |-> e, a |-> a])
             /\ m' = (IF a.refused THEN m ELSE [p \in pat |-> NewVal(p, e)])
        /\ UNCHANGED <<act, n, pat, bc>>
Finish == act = "ops" /\ Len(ops) > 3 /\ act' = "done" /\ UNCHANGED <<n, pat, m, ops, bc>>
Next == Alloc \/ Constrain \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* values live on the pattern
Shape == act \in {"ops", "done"} => DOMAIN m = pat
\* multiplication is linear: by a unit vector it reads a column
ReadsColumn == act = "done" => \A j \in Idx : Times([q \in 1..n |-> IF q = j + 1 THEN 1 ELSE 0]) = [i \in 1..n |-> Val(i - 1, j)]
\* a constrained system leaves constrained unknowns at zero: (K1 x = r1) has x_c = 0; and stays symmetric where it was
Idle == act = "constrained" => \A i \in Constrained : Rhs1[i + 1] = 0 /\ \A j \in Dofs \ {i} : Entry1(i, j) = 0 /\ Entry1(j, i) = 0
Untouched == act = "constrained" => \A i, j \in Dofs \ Constrained : Entry1(i, j) = Entry(i, j) /\ Rhs1[i + 1] = bc.rhs[i + 1]

SetToSortedSeq(S) == [k \in 1..Cardinality(S) |-> CHOOSE p \in S : Cardinality({q \in S : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])}) = k - 1]
Emission ==
  IF act = "done" THEN LET l == SetToSortedSeq(pat) IN
    [kind |-> "ops", n |-> n, dense |-> bc.dense, pat |-> l, ops |-> ops, final |-> [k \in 1..Len(l) |-> m[l[k]]]]
  ELSE [kind |-> "bc", nodes |-> bc.nodes, gid |-> bc.gid, sets |-> bc.sets, list |-> bc.list, rhs |-> bc.rhs, rhs1 |-> Rhs1, diag |-> bc.diag,
        con |-> Constrained, pairs |-> SetToSortedSeq(NodePairs),
        mat |-> [i \in 1..(3 * bc.nodes) |-> [j \in 1..(3 * bc.nodes) |-> IF InPat(i - 1, j - 1) THEN <<Entry(i - 1, j - 1), Entry1(i - 1, j - 1)>> ELSE <<>>]]]
EmitInv == act \in {"done", "constrained"} => PrintT("BEH " \o ToJson(Emission))
=============================================================================
