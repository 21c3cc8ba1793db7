------------------------------- MODULE MCProj -------------------------------
(* Triangles and points around them, one after the other.                    *)
EXTENDS Proj, TLC, Json
CONSTANTS TRI,      \* coordinates of the corners
          FAR,      \* coordinates of the points
          NPT       \* points per triangle
VARIABLES act, tri, pts
vars == <<act, tri, pts>>
Pick(S) == RandomElement(S)
Rnd3(S) == <<Pick(S), Pick(S), Pick(S)>>
Init == act = "tri" /\ tri = <<>> /\ pts = <<>>
PickTri == act = "tri" /\ \E t \in {TLCEval([i \in I3 |-> Rnd3(TRI)])} : \E l \in {Pick({<<1, 4>>, <<1, 1>>, <<5, 2>>, <<9, 1>>, <<30, 1>>, <<1000, 1>>})} :
  LET F == Facet(t) IN tri' = (IF F.nn > 0 THEN F @@ [l |-> l] ELSE tri) /\ act' = (IF F.nn > 0 THEN "pts" ELSE "tri") /\ UNCHANGED pts
\* a point anywhere, in the plane of the triangle, on an edge line, or on the normal at a vertex
Point(F, how) ==
  CASE how = 1 -> Rnd3(FAR)
    [] how = 2 -> LET a == TLCEval(Pick(-2..2)) b == TLCEval(Pick(-2..2)) IN
                  [j \in I3 |-> F.t[1][j] + a * (F.t[2][j] - F.t[1][j]) + b * (F.t[3][j] - F.t[1][j])]
    [] how = 3 -> LET a == TLCEval(Pick(-1..1)) i == TLCEval(Pick(I3)) e == TLCEval(EdgeOf(F, i)) s == TLCEval(Pick({-1, 0, 1})) IN
                  [j \in I3 |-> IF s * F.n[j] \in -6..6 THEN e[1][j] + a * (e[2][j] - e[1][j]) + s * F.n[j] ELSE e[1][j]]
    [] OTHER -> LET i == TLCEval(Pick(I3)) IN [j \in I3 |-> F.t[i][j] + Pick(-1..1)]
AddPoint == act = "pts" /\ \E p \in {TLCEval(Point(tri, Pick({1, 1, 1, 2, 3, 4})))} :
  pts' = Append(pts, p) /\ act' = (IF Len(pts) + 1 = NPT THEN "done" ELSE "pts") /\ UNCHANGED tri
Finish == act = "done" /\ act' = "end" /\ UNCHANGED <<tri, pts>>
Next == PickTri \/ AddPoint \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- of the definitions
Here == act \in {"pts", "done"} /\ pts # <<>>
Last == pts[Len(pts)]
ClosestIsClosest == Here => Characteristic(tri, Last, Closest(tri, Last))
\* the barycentric coordinates are those of the foot of the perpendicular
Foot == Here => LET P == Project(tri, Last) IN
  /\ P.b[1] + P.b[2] + P.b[3] = tri.nn
  /\ \A j \in I3 : P.b[1] * tri.t[1][j] + P.b[2] * tri.t[2][j] + P.b[3] * tri.t[3][j] = Last[j] * tri.nn - P.h * tri.n[j]
\* a point is inside as seen from every edge, or outside of one
Turned == Here => LET G == Facet(<<tri.t[2], tri.t[3], tri.t[1]>>) IN
  G.n = tri.n /\ Project(G, Last).b = [i \in I3 |-> Project(tri, Last).b[(i % 3) + 1]] /\ Project(G, Last).h = Project(tri, Last).h
Answer(p) == LET P == Project(tri, p) c == Closest(tri, p) IN
  [p |-> p, b |-> P.b, h |-> P.h, inside |-> Inside(tri, P), strict |-> Strictly(tri, P), inner |-> Inner(tri, P, tri.l[1], tri.l[2]),
   limit |-> OnLimit(tri, P, tri.l[1], tri.l[2]), kind |-> c.kind, c |-> c.c, den |-> c.den]
EmitInv == act = "end" => PrintT("BEH " \o ToJson([t |-> tri.t, n |-> tri.n, nn |-> tri.nn, l |-> tri.l, a |-> [k \in DOMAIN pts |-> Answer(pts[k])]]))
=============================================================================
