------------------------------ MODULE Entity --------------------------------
(* Contact entities: nodes and triangular facets.                            *)
(*                                                                           *)
(* An entity is attached to mesh nodes - a node to one; a facet to two and,  *)
(* by its third corner, the middle of a quadrilateral face, to four.  It     *)
(* carries a position, a characteristic length, forces at its corners, an    *)
(* identity, a contact status.  Its bounding box and centroid are functions  *)
(* of the position and the length and are never out of step with them.       *)
(* Forces leave an entity for the mesh nodes it is attached to, all of them  *)
(* and nothing but them.  Facets travel as bytes and arrive as they left.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NN, MAXE, MAXOPS

VARIABLES act, coord, force, total, ents, ops
vars == <<act, coord, force, total, ents, ops>>

Rnd(S) == RandomElement(S)
Dim == 1..3
Pts == {4 * k : k \in -12..12}
\* random elements that are chosen anew at every step
Point(d) == [i \in Dim |-> Rnd(Pts) + 0 * d]
Plus(u, v) == [i \in Dim |-> u[i] + v[i]]
Minus(u, v) == [i \in Dim |-> u[i] - v[i]]
Scale(a, u) == [i \in Dim |-> a * u[i]]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Zero3 == <<0, 0, 0>>

Corners(e) == IF e.kind = 1 THEN 1..1 ELSE 1..3
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* 0.15 of the length, which is a multiple of twenty
Inflation(e) == (3 * e.len) \div 20
Box(e) == [i \in Dim |-> <<Min({e.x[c][i] : c \in Corners(e)}) - Inflation(e), Max({e.x[c][i] : c \in Corners(e)}) + Inflation(e)>>]
\* the sum of the corners: the centroid times their number
Sum(e) == [i \in Dim |-> IF e.kind = 1 THEN e.x[1][i] ELSE e.x[1][i] + e.x[2][i] + e.x[3][i]]
\* where the nodes put an entity
Quarter(q, i) == (coord[q[1]][i] + coord[q[2]][i] + coord[q[3]][i] + coord[q[4]][i]) \div 4
Placed(e) == IF e.kind = 1 THEN [e EXCEPT !.x[1] = coord[e.n[1]]]
             ELSE [e EXCEPT !.x = <<coord[e.n[1]], coord[e.n[2]], [i \in Dim |-> Quarter(e.q, i)]>>]
\* the share of the force of corner c that node n gets: a number of quarters
Share(e, c, n) == IF c < 3 THEN IF e.n[c] = n THEN 4 ELSE 0 ELSE Cardinality({k \in 1..4 : e.q[k] = n})
Given(e) == [n \in 0..(NN - 1) |-> [i \in Dim |->
   LET p(c) == IF c \in Corners(e) THEN Share(e, c, n) * e.f[c][i] ELSE 0 IN (p(1) + p(2) + p(3)) \div 4]]
Shown(e) == [kind |-> e.kind, id |-> e.id, loc |-> e.loc, n |-> e.n, q |-> e.q, len |-> e.len, x |-> SubSeq(e.x, 1, IF e.kind = 1 THEN 1 ELSE 3),
             f |-> SubSeq(e.f, 1, IF e.kind = 1 THEN 1 ELSE 3), st |-> e.st, box |-> Box(e), sum |-> Sum(e)]

-----------------------------------------------------------------------------
Init == /\ act = "run" /\ ents = <<>> /\ total = Zero3
        /\ coord = TLCEval([n \in 0..(NN - 1) |-> Point(n)]) /\ force = [n \in 0..(NN - 1) |-> Zero3]
        /\ ops = <<[e |-> [op |-> "move", coord |-> [n \in 1..NN |-> coord[n - 1]]], shown |-> <<>>, k |-> 0]>>

Go == act = "run" /\ Len(ops) < MAXOPS
\* the operation, and what the entity it acted on shows afterwards
Do(e, es, k) == /\ ops' = Append(ops, [e |-> e, shown |-> IF k = 0 THEN <<>> ELSE Shown(es[k]), k |-> k])
                /\ ents' = es /\ UNCHANGED act
Still == UNCHANGED <<coord, force, total>>
Zs == {0 * Len(ops)}
Pick == Rnd(1..Len(ents))

Make == Go /\ \E t \in Zs : Len(ents) < MAXE /\ \E kind \in {Rnd({1, 3, 3}) + t} : \E x \in {TLCEval([c \in 1..3 |-> Point(t + c)])} :
  \E a \in {TLCEval([k \in 1..6 |-> Rnd(0..(NN - 1)) + t])} : \E len \in {Rnd({0, 20, 40, 100}) + t} : \E id \in {Rnd(1..100000) + t} : \E loc \in {Rnd({-1, 0, 3, 17}) + t} :
  LET e == [kind |-> kind, id |-> id, loc |-> loc, n |-> IF kind = 1 THEN <<a[1], -1>> ELSE <<a[1], a[2]>>, q |-> IF kind = 1 THEN <<-1, -1, -1, -1>> ELSE <<a[3], a[4], a[5], a[6]>>,
            len |-> len, x |-> x, f |-> <<Zero3, Zero3, Zero3>>, st |-> FALSE]
  IN Do([op |-> "make", kind |-> kind, x |-> x, a |-> a, len |-> len, id |-> id, loc |-> loc], Append(ents, e), Len(ents) + 1) /\ Still
\* the nodes move: one of them, or all by the same amount
Move == Go /\ \E t \in Zs : \E all \in {Rnd({TRUE, FALSE}) /\ Len(ops) >= 0} : \E m \in {Rnd(0..(NN - 1)) + t} : \E d \in {TLCEval(Point(t))} :
  LET new == [n \in 0..(NN - 1) |-> IF all \/ n = m THEN Plus(coord[n], d) ELSE coord[n]] IN
  /\ \A n \in 0..(NN - 1) : \A i \in Dim : new[n][i] \in -400..400
  /\ coord' = TLCEval(new) /\ Do([op |-> "move", coord |-> [n \in 1..NN |-> new[n - 1]]], ents, 0) /\ UNCHANGED <<force, total>>
Place == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} : Do([op |-> "place", k |-> k], [ents EXCEPT ![k] = Placed(@)], k) /\ Still
\* a force on an entity, divided among its corners by the weights given; a contact node takes the reaction
Push == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} : \E F \in {TLCEval(Point(t))} : \E w \in {TLCEval(<<Rnd(-2..3) + t, Rnd(-2..3) + t>>)} :
  LET N == <<w[1], w[2], 1 - w[1] - w[2]>> e == ents[k] IN
  Do([op |-> "push", k |-> k, F |-> F, N |-> N], [ents EXCEPT ![k].f = IF e.kind = 1 THEN [@ EXCEPT ![1] = Scale(-1, F)] ELSE [c \in 1..3 |-> Scale(N[c], F)]], k) /\ Still
\* the same, with the point of the facet the force acts at in place of the weights; a node takes the force itself
Quarters == {w \in (0..4) \X (0..4) \X (0..4) : w[1] + w[2] + w[3] = 4}
At(e, w) == [i \in Dim |-> (w[1] * e.x[1][i] + w[2] * e.x[2][i] + w[3] * e.x[3][i]) \div 4]
Whole(e) == \A c \in 1..3 : \A i \in Dim : (e.x[c][i] % 4) = 0
Press == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} : \E F \in {TLCEval(Scale(4, Point(t)))} : \E w \in {TLCEval(Rnd({v \in Quarters : Len(ops) >= 0}))} :
  LET e == ents[k] IN
  /\ e.kind = 3 => (Whole(e) /\ Cross(Minus(e.x[2], e.x[1]), Minus(e.x[3], e.x[1])) # Zero3)
  /\ Do([op |-> "press", k |-> k, F |-> F, at |-> At(e, w)],
        [ents EXCEPT ![k].f = IF e.kind = 1 THEN [@ EXCEPT ![1] = F] ELSE [c \in 1..3 |-> [i \in Dim |-> (w[c] * F[i]) \div 4]]], k) /\ Still
\* the forces of an entity go to its nodes
Scatter == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} :
  LET e == ents[k] g == Given(e) IN
  /\ force' = TLCEval([n \in 0..(NN - 1) |-> Plus(force[n], g[n])])
  /\ total' = TLCEval([i \in Dim |-> total[i] + e.f[1][i] + IF e.kind = 3 THEN e.f[2][i] + e.f[3][i] ELSE 0])
  /\ Do([op |-> "scatter", k |-> k, force |-> [n \in 1..NN |-> force'[n - 1]]], ents, k) /\ UNCHANGED coord
Touch == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} : \E s \in {Rnd({TRUE, TRUE, FALSE}) /\ Len(ops) >= 0} : Do([op |-> "touch", k |-> k, st |-> s], [ents EXCEPT ![k].st = s], k) /\ Still
Reset == Go /\ \E t \in Zs : ents # <<>> /\ \E k \in {Pick + t} : Do([op |-> "reset", k |-> k], [ents EXCEPT ![k].st = FALSE], k) /\ Still
\* the geometry of one entity becomes that of another of its kind; identity, nodes, forces and status stay
Export == Go /\ \E t \in Zs : Len(ents) > 1 /\ \E k \in {Pick + t} : \E l \in {Pick + t} : k # l /\ ents[k].kind = ents[l].kind
  /\ Do([op |-> "export", k |-> k, l |-> l], [ents EXCEPT ![l].x = ents[k].x, ![l].len = ents[k].len], l) /\ Still
Copy == Go /\ \E t \in Zs : Len(ents) > 1 /\ \E k \in {Pick + t} : \E l \in {Pick + t} : k # l /\ Do([op |-> "copy", k |-> k, l |-> l], [ents EXCEPT ![l] = ents[k]], l) /\ Still
\* facets cross in a message, in any order and number, and arrive without forces and status
Send == Go /\ \E t \in Zs : \E m \in {Rnd(0..3) + t} : LET tri == {k \in 1..Len(ents) : ents[k].kind = 3} IN tri # {} /\ \E s \in {TLCEval([j \in 1..m |-> Rnd(tri) + t])} :
  Do([op |-> "send", s |-> s, got |-> [j \in 1..m |-> Shown([ents[s[j]] EXCEPT !.f = <<Zero3, Zero3, Zero3>>, !.st = FALSE])]], ents, 0) /\ Still
\* plain geometry: four times the square of an area; the nearest point of a line, and the square of a distance
Area == Go /\ \E t \in Zs : \E p \in {TLCEval([c \in 1..3 |-> Point(t + c)])} : LET n == Cross(Minus(p[2], p[1]), Minus(p[3], p[1])) IN
  Do([op |-> "area", p |-> p, sq |-> n], ents, 0) /\ Still
Edge == Go /\ \E t \in Zs : \E p \in {TLCEval([c \in 1..3 |-> Point(t + c)])} : \E w \in {Rnd(-2..6) + t} : p[1] # p[2] /\
  LET d == Minus(p[2], p[1]) x == [i \in Dim |-> p[1][i] + (w * d[i]) \div 4 - p[3][i]] IN
  Do([op |-> "edge", p |-> p, w |-> w, num |-> Dot(Minus(p[3], p[1]), d), den |-> Dot(d, d), dist |-> Dot(x, x)], ents, 0) /\ Still
Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<coord, force, total, ents, ops>>
Next == Make \/ Move \/ Place \/ Push \/ Press \/ Scatter \/ Touch \/ Reset \/ Export \/ Copy \/ Send \/ Area \/ Edge \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* nothing of a force is lost or made on the way to the nodes
RECURSIVE Over(_, _)
Over(n, i) == IF n < 0 THEN 0 ELSE force[n][i] + Over(n - 1, i)
Conserved == \A i \in Dim : Over(NN - 1, i) = total[i]
\* the box holds the entity with the inflation on every side, touching it nowhere else
Boxed == \A k \in 1..Len(ents) : LET e == ents[k] IN \A i \in Dim :
  /\ \A c \in Corners(e) : e.x[c][i] - Box(e)[i][1] >= Inflation(e) /\ Box(e)[i][2] - e.x[c][i] >= Inflation(e)
  /\ \E c \in Corners(e) : e.x[c][i] - Box(e)[i][1] = Inflation(e)
  /\ \E c \in Corners(e) : Box(e)[i][2] - e.x[c][i] = Inflation(e)
\* all nodes moved by d: an entity placed before and placed again has moved by d, box and centroid with it
Together == [][ops' # ops /\ ops'[Len(ops')].e.op = "move" =>
  LET d(n) == Minus(coord'[n], coord[n]) IN (\A n \in 0..(NN - 1) : d(n) = d(0)) =>
    \A k \in 1..Len(ents) : LET a == Placed(ents[k]) b == Placed(ents[k])' IN \A i \in Dim :
      Box(b)[i][1] - Box(a)[i][1] = d(0)[i] /\ Box(b)[i][2] - Box(a)[i][2] = d(0)[i] /\ Sum(b)[i] - Sum(a)[i] = (IF a.kind = 1 THEN 1 ELSE 3) * d(0)[i]]_vars
Emission == [nn |-> NN, ops |-> ops]
EmitInv == act = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
