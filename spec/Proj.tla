-------------------------------- MODULE Proj --------------------------------
(* Projection of a point on a triangle, exactly.  All coordinates are        *)
(* integers; barycentric coordinates have the common denominator n.n, with   *)
(* n = (q - p) x (r - p) the normal.                                         *)
EXTENDS Integers, Sequences, FiniteSets

I3 == 1..3
Vec(f(_)) == <<f(1), f(2), f(3)>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Normal(t) == Cross(Minus(t[2], t[1]), Minus(t[3], t[1]))

\* numerators of the barycentric coordinates over nn, and of the signed distance over the length of n
Facet(t) == LET n == Normal(t) IN [t |-> t, n |-> n, nn |-> Dot(n, n)]
Project(F, p) ==
  LET u == Minus(F.t[2], F.t[1]) v == Minus(F.t[3], F.t[1]) w == Minus(p, F.t[1])
      b3 == Dot(Cross(u, w), F.n) b2 == Dot(Cross(w, v), F.n)
  IN [b |-> <<F.nn - b2 - b3, b2, b3>>, h |-> Dot(w, F.n)]
\* inside the facet, its edges included
Inside(F, P) == \A i \in I3 : P.b[i] >= 0
Strictly(F, P) == \A i \in I3 : P.b[i] > 0
\* on the inner side, by less than the length whose square is l2 (over d2)
Inner(F, P, l2, d2) == P.h < 0 /\ P.h * P.h * d2 < l2 * F.nn
OnLimit(F, P, l2, d2) == P.h = 0 \/ P.h * P.h * d2 = l2 * F.nn

\* the closest point of the triangle, as numerators over a denominator: of the face, else of an edge or a vertex.
\* the edges are those opposite to no vertex: (1,2) (2,3) (3,1)
EdgeOf(F, i) == <<F.t[i], F.t[(i % 3) + 1]>>
OnEdge(F, p, i) == LET e == EdgeOf(F, i) d == Minus(e[2], e[1]) w == Minus(p, e[1]) IN
  [k |-> Dot(w, d), l |-> Dot(d, d), dd |-> Dot(w, w) * Dot(d, d) - Dot(w, d) * Dot(w, d),
   c |-> [j \in I3 |-> e[1][j] * Dot(d, d) + d[j] * Dot(w, d)]]
Candidates(F, p) ==
  {[kind |-> "vertex", c |-> F.t[i], den |-> 1, num |-> Dot(Minus(p, F.t[i]), Minus(p, F.t[i]))] : i \in I3}
  \cup {LET o == OnEdge(F, p, i) IN [kind |-> "edge", c |-> o.c, den |-> o.l, num |-> o.dd] : i \in {j \in I3 : LET o == OnEdge(F, p, j) IN o.k > 0 /\ o.k < o.l}}
Less(a, b) == a.num * b.den <= b.num * a.den
Closest(F, p) == LET P == Project(F, p) IN
  IF Inside(F, P) THEN [kind |-> IF Strictly(F, P) THEN "face" ELSE "border", den |-> F.nn,
                        c |-> [j \in I3 |-> P.b[1] * F.t[1][j] + P.b[2] * F.t[2][j] + P.b[3] * F.t[3][j]]]
  ELSE LET C == Candidates(F, p) IN CHOOSE a \in C : \A b \in C : Less(a, b)
\* the closest point of a convex set: no point of it is ahead of it
Characteristic(F, p, a) ==
  \A i \in I3 : LET x == [j \in I3 |-> p[j] * a.den - a.c[j]] y == [j \in I3 |-> F.t[i][j] * a.den - a.c[j]] IN Dot(x, y) <= 0
=============================================================================
