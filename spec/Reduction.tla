---------------------------- MODULE Reduction ----------------------------
(* How the values of nodes that several ranks hold are combined.            *)
(*                                                                          *)
(* Part 1: the node layout, built node by node: a global node id, the ranks *)
(*   that hold it and its place in each rank's local list.                  *)
(* Part 2: the algorithm of nimble.mpi.reduction*: the root walks the       *)
(*   gathered id lists rank by rank and refines a partition of the nodes    *)
(*   ("cliques"); every rank then splits one communicator per clique colour *)
(*   in ascending order, and a reduction starts one non-blocking sum per    *)
(*   clique and polls them, moving the last unfinished one into the place   *)
(*   of one that has completed.  Completions come in any order.             *)
(* Part 3: what a user relies on: after a reduction, whatever the layout    *)
(*   and the order of completions, every rank that holds a node has the sum *)
(*   of the values its holders had, in every component; nodes of one rank   *)
(*   keep their value; the list of boundary nodes is exactly the shared     *)
(*   nodes, each once, with the lowest rank that holds it.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRanks, MinRanks, MaxNodes, Ids, MaxOps, Algo, Emit

VARIABLES nr,      \* number of ranks
          nodes,   \* sequence of [id, on]: global id and the set of ranks holding the node
          loc,     \* rank -> sequence of indices into nodes
          phase,   \* "layout", "assign", "split", "ready", "reduce", "done"
          \* the algorithm
          ar, ai,  \* position of the root's walk
          look,    \* node -> clique number (0: none yet)
          remap,   \* clique -> clique, for the present rank
          ctr,     \* next clique number
          vals,    \* rank -> local index -> value (one component suffices for the algorithm)
          unf, pos, buf, fin,  \* rank -> unfinished list, poll position, sent values, completed cliques
          \* the operations asked for
          ops
vars == <<nr, nodes, loc, phase, ar, ai, look, remap, ctr, vals, unf, pos, buf, fin, ops>>

Ranks == 0..(nr - 1)
Range(s) == {s[i] : i \in DOMAIN s}
InsertAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))

(* value that rank r gives to component c of node n in operation o *)
Val(r, n, c, salt) == (((r + 1) * (n + 2) * salt + c * 17 + (r + 3) * (c + 2) * 5) % 1009) - 400

(* what everybody relies on *)
RECURSIVE SumOver(_, _, _, _)
SumOver(S, n, c, salt) == IF S = {} THEN 0
                          ELSE LET r == CHOOSE x \in S : TRUE
                               IN  Val(r, n, c, salt) + SumOver(S \ {r}, n, c, salt)
Reduced(n, c, salt) == SumOver(nodes[n].on, n, c, salt)
MinRank(S) == CHOOSE x \in S : \A y \in S : x <= y
Boundary(r) == {<<k, MinRank(nodes[loc[r][k]].on)>> :
                  k \in {j \in DOMAIN loc[r] : Cardinality(nodes[loc[r][j]].on) > 1}}

Init == /\ nr \in MinRanks..MaxRanks
        /\ nodes = <<>> /\ loc = [r \in 0..(nr - 1) |-> <<>>]
        /\ phase = "layout"
        /\ ar = 0 /\ ai = 1 /\ look = <<>> /\ remap = <<>> /\ ctr = 0
        /\ vals = <<>> /\ unf = <<>> /\ pos = <<>> /\ buf = <<>> /\ fin = <<>>
        /\ ops = <<>>

algov == <<ar, ai, look, remap, ctr, vals, unf, pos, buf, fin>>

AddNode ==
  /\ phase = "layout" /\ Len(nodes) < MaxNodes
  /\ \E on \in (SUBSET Ranks) \ {{}} :
     \E id \in {3 * Len(nodes) + 2} :   \* ascending, as the places in the lists are arbitrary
     \E where \in [on -> 0..Len(nodes)] :
       /\ \A r \in on : where[r] <= Len(loc[r])
       /\ nodes' = Append(nodes, [id |-> id, on |-> on])
       /\ loc' = [r \in Ranks |-> IF r \in on THEN InsertAt(loc[r], where[r], Len(nodes) + 1) ELSE loc[r]]
  /\ UNCHANGED <<nr, phase, ops, algov>>

(* simulation: the same with random choices, so that large layouts are cheap *)
AddNodeRandom ==
  /\ phase = "layout" /\ Len(nodes) < MaxNodes
  /\ LET n    == Len(nodes) + 1
         pool == {nodes[i].on : i \in DOMAIN nodes}
     IN  \E on \in {IF pool # {} /\ RandomElement(1..3) = 1 THEN RandomElement(pool)
                    ELSE RandomElement((SUBSET Ranks) \ {{}})} :
         \E id \in {RandomElement(Ids \ {nodes[i].id : i \in DOMAIN nodes})} :
         \E wh \in {TLCEval([r \in Ranks |-> RandomElement(0..Len(loc[r]))])} :
           /\ nodes' = Append(nodes, [id |-> id, on |-> on])
           /\ loc' = TLCEval([r \in Ranks |-> IF r \in on THEN InsertAt(loc[r], wh[r], n) ELSE loc[r]])
  /\ UNCHANGED <<nr, phase, ops, algov>>

------------------------------------------------------------------------
(* the algorithm *)
StartAssign ==
  /\ phase = "layout" /\ Algo /\ Len(nodes) > 0
  /\ phase' = "assign" /\ ar' = 0 /\ ai' = 1
  /\ look' = [n \in DOMAIN nodes |-> 0] /\ remap' = [x \in {} |-> 0] /\ ctr' = nr + 1
  /\ UNCHANGED <<nr, nodes, loc, vals, unf, pos, buf, fin, ops>>

AssignStep ==
  /\ phase = "assign" /\ ar < nr
  /\ IF ai > Len(loc[ar])
       THEN ar' = ar + 1 /\ ai' = 1 /\ remap' = [x \in {} |-> 0] /\ UNCHANGED <<look, ctr>>
       ELSE LET n == loc[ar][ai]
                c == look[n]
            IN  /\ ai' = ai + 1 /\ ar' = ar
                /\ IF c = 0 THEN look' = [look EXCEPT ![n] = ar + 1] /\ UNCHANGED <<remap, ctr>>
                   ELSE IF c \in DOMAIN remap
                     THEN look' = [look EXCEPT ![n] = remap[c]] /\ UNCHANGED <<remap, ctr>>
                     ELSE /\ look' = [look EXCEPT ![n] = ctr]
                          /\ remap' = [x \in DOMAIN remap \cup {c} |-> IF x = c THEN ctr ELSE remap[x]]
                          /\ ctr' = ctr + 1
  /\ UNCHANGED <<nr, nodes, loc, phase, vals, unf, pos, buf, fin, ops>>

(* clique numbers a rank takes part in, ascending: the order of its communicators *)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinRank(S) IN <<m>> \o Ascending(S \ {m})
Cliques(r) == Ascending({look[n] : n \in Range(loc[r])})
Members(c) == {r \in Ranks : c \in {look[n] : n \in Range(loc[r])}}
(* indices of a clique, ordered by global id *)
RECURSIVE ById(_, _)
ById(r, S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE k \in S : \A j \in S : nodes[loc[r][k]].id <= nodes[loc[r][j]].id
                   IN  <<m>> \o ById(r, S \ {m})
Indices(r, c) == IF c <= nr THEN <<>> ELSE ById(r, {k \in DOMAIN loc[r] : look[loc[r][k]] = c})

StartReduce ==
  /\ phase = "assign" /\ ar = nr
  /\ phase' = "reduce"
  /\ vals' = TLCEval([r \in Ranks |-> [k \in DOMAIN loc[r] |-> Val(r, loc[r][k], 0, 7)]])
  /\ buf' = TLCEval([r \in Ranks |-> [c \in Range(Cliques(r)) |->
                 [j \in DOMAIN Indices(r, c) |-> Val(r, loc[r][Indices(r, c)[j]], 0, 7)]]])
  /\ unf' = TLCEval([r \in Ranks |-> Cliques(r)])
  /\ pos' = [r \in Ranks |-> 1]
  /\ fin' = [r \in Ranks |-> {}]
  /\ UNCHANGED <<nr, nodes, loc, ar, ai, look, remap, ctr, ops>>

(* the sum that the communicator of clique c yields at place j *)
RECURSIVE BufSum(_, _, _)
BufSum(S, c, j) == IF S = {} THEN 0 ELSE LET r == CHOOSE x \in S : TRUE IN buf[r][c][j] + BufSum(S \ {r}, c, j)

(* once every rank has started its sums the ranks no longer influence each   *)
(* other, so it is enough to let one of them run at a time                   *)
Poll(r) ==
  /\ phase = "reduce" /\ unf[r] # <<>>
  /\ \A s \in 0..(r - 1) : unf[s] = <<>>
  /\ LET p == IF pos[r] > Len(unf[r]) THEN 1 ELSE pos[r]
         c == unf[r][p]
         L == Len(unf[r])
     IN \/ \* not complete yet
           /\ pos' = [pos EXCEPT ![r] = p + 1]
           /\ UNCHANGED <<unf, vals, fin>>
        \/ \* complete: unpack, the last one takes its place
           /\ vals' = TLCEval([vals EXCEPT ![r] = [k \in DOMAIN vals[r] |->
                 IF \E j \in DOMAIN Indices(r, c) : Indices(r, c)[j] = k
                   THEN BufSum(Members(c), c, CHOOSE j \in DOMAIN Indices(r, c) : Indices(r, c)[j] = k)
                   ELSE vals[r][k]]])
           /\ unf' = TLCEval([unf EXCEPT ![r] = SubSeq([unf[r] EXCEPT ![p] = unf[r][L]], 1, L - 1)])
           /\ fin' = [fin EXCEPT ![r] = @ \cup {c}]
           /\ pos' = [pos EXCEPT ![r] = p]
  /\ UNCHANGED <<nr, nodes, loc, phase, ar, ai, look, remap, ctr, buf, ops>>

------------------------------------------------------------------------
(* a user's operations on a finished layout: on an array, on a view, through *)
(* Tpetra in space and in the plane, and on a field known by its label       *)
Dims == 1..3
AddOp ==
  /\ phase = "layout" /\ Emit /\ Len(nodes) = MaxNodes /\ Len(ops) < MaxOps
  /\ \E kind \in {RandomElement({"ptr", "view", "tpetra", "tpetra", "plane", "label", "bnd"})} :
     \E dim \in {IF kind = "label" THEN RandomElement({1, 3}) ELSE RandomElement(Dims)} :
     \E salt \in {RandomElement(1..900)} :
     \E prio \in {TLCEval([i \in 1..8 |-> RandomElement(1..8)])} :
       ops' = Append(ops, [kind |-> kind, dim |-> dim, salt |-> salt, prio |-> prio])
  /\ UNCHANGED <<nr, nodes, loc, phase, algov>>

Say ==
  /\ phase = "layout" /\ Emit /\ Len(ops) = MaxOps
  /\ PrintT("BEH " \o ToJson([nr |-> nr,
        ids |-> [r \in 1..nr |-> [k \in DOMAIN loc[r-1] |-> nodes[loc[r-1][k]].id]],
        ops |-> [o \in DOMAIN ops |->
          [kind |-> ops[o].kind, dim |-> ops[o].dim, prio |-> ops[o].prio,
           given |-> [r \in 1..nr |-> [k \in DOMAIN loc[r-1] |->
                        [c \in 1..ops[o].dim |-> Val(r-1, loc[r-1][k], c, ops[o].salt)]]],
           want |-> IF ops[o].kind = "bnd"
                      THEN [r \in 1..nr |-> [b \in {} |-> 0]]
                      ELSE [r \in 1..nr |-> [k \in DOMAIN loc[r-1] |->
                        [c \in 1..ops[o].dim |-> Reduced(loc[r-1][k], c, ops[o].salt)]]],
           bnd |-> [r \in 1..nr |-> Boundary(r-1)]]]]))
  /\ phase' = "done"
  /\ UNCHANGED <<nr, nodes, loc, ops, algov>>

Next == \/ (~Emit /\ AddNode) \/ (Emit /\ AddNodeRandom)
        \/ StartAssign \/ AssignStep \/ StartReduce \/ (\E r \in Ranks : Poll(r))
        \/ AddOp \/ Say
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(AssignStep) /\ WF_vars(StartReduce)

------------------------------------------------------------------------
Assigned == phase = "reduce"
(* the refinement yields exactly the classes of equal holder sets *)
CliquesAreHolderSets ==
  Assigned => /\ \A m, n \in DOMAIN nodes : (look[m] = look[n]) <=> (nodes[m].on = nodes[n].on)
              /\ \A n \in DOMAIN nodes : look[n] > 0 /\ look[n] < ctr
              /\ \A n \in DOMAIN nodes : (look[n] <= nr) <=> (Cardinality(nodes[n].on) = 1)
              /\ \A n \in DOMAIN nodes : Members(look[n]) = nodes[n].on
(* all members of a clique's communicator bring the same nodes in the same order *)
SameOrder ==
  Assigned => \A c \in {look[n] : n \in DOMAIN nodes} : \A r, s \in Members(c) :
       LET a == Indices(r, c) b == Indices(s, c)
       IN  Len(a) = Len(b) /\ \A j \in DOMAIN a : loc[r][a[j]] = loc[s][b[j]]
(* every rank meets its communicators in an order all ranks agree on (else: deadlock) *)
AgreedOrder ==
  Assigned => \A r, s \in Ranks : \A i, j \in DOMAIN Cliques(r) : \A k, l \in DOMAIN Cliques(s) :
       (Cliques(r)[i] = Cliques(s)[k] /\ Cliques(r)[j] = Cliques(s)[l] /\ i < j) => k < l
(* a finished rank has the sums; an unfinished one loses no clique *)
RightSums ==
  phase = "reduce" => \A r \in Ranks :
     /\ Range(unf[r]) \cup fin[r] = Range(Cliques(r)) /\ Range(unf[r]) \cap fin[r] = {}
     /\ (unf[r] = <<>>) => \A k \in DOMAIN loc[r] : vals[r][k] = Reduced(loc[r][k], 0, 7)
=============================================================================
