------------------------------ MODULE Contact -------------------------------
(* Penalty contact of a mesh of several bodies that move through each other. *)
(* Each evaluation looks at the present position only: a contact node that   *)
(* projects into a facet of the primary surface, behind it by less than the  *)
(* facet's length, is pushed out by penalty times gap along the normal, and  *)
(* the facet pushed back, its corners in barycentric shares, a quarter of    *)
(* the centre's to each node of the face.                                    *)
EXTENDS Skin, Proj

CONSTANTS STEPS,   \* evaluations
          SHIFT    \* components of the motion of a body
VARIABLES u, hist
cvars == <<act, M, parts, sel, u, hist>>

\* positions in quarters, so that face centres are integers
Now(w, n) == [i \in 1..3 |-> 4 * (M.pos[n][i] + w[n][i])]
Ctr(x, q) == [i \in 1..3 |-> (x[q[1]][i] + x[q[2]][i] + x[q[3]][i] + x[q[4]][i]) \div 4]
Tri(x, q, k) == <<x[q[k]], x[q[(k % 4) + 1]], Ctr(x, q)>>
Moved(w) == TLCEval([n \in Range(M.nodes) |-> Now(w, n)])
Facets == {<<cf, k>> : cf \in sel.sp, k \in 1..4}
L2(q) == 16 * QuadLen(q)
Small(h) == h > -46000 /\ h < 46000
\* contact nodes that have come behind a facet
Behind(F, Q, l2) == Small(Q.h) /\ Inside(F, Q) /\ Inner(F, Q, l2, 1)
Doubtful(F, Q, l2) == Small(Q.h) /\ Inside(F, Q) /\ Q.h # 0 /\ OnLimit(F, Q, l2, 1)
Pairs(w) ==
  LET x == Moved(w) N == SurfaceNodes(M, sel.ss)
      G == TLCEval([fk \in Facets |-> Facet(Tri(x, M.cyc[fk[1]], fk[2]))])
      len == TLCEval([cf \in sel.sp |-> L2(M.cyc[cf])])
      Q == TLCEval([nf \in N \X Facets |-> Project(G[nf[2]], x[nf[1]])])
      flat == \E fk \in Facets : G[fk].nn = 0
  IN IF flat THEN [ok |-> FALSE, hits |-> {}]
     ELSE [ok |-> ~ \E nf \in N \X Facets : Doubtful(G[nf[2]], Q[nf], len[nf[2][1]]),
           hits |-> {[n |-> nf[1], q |-> M.cyc[nf[2][1]], k |-> nf[2][2], b |-> Q[nf].b, h |-> Q[nf].h, N |-> G[nf[2]].n, nn |-> G[nf[2]].nn, c |-> Ctr(x, M.cyc[nf[2][1]])]
                      : nf \in {y \in N \X Facets : Behind(G[y[2]], Q[y], len[y[2][1]])}}]

CInit == SInit /\ u = <<>> /\ hist = <<>>
Start == act = "done" /\ act' = "move" /\ UNCHANGED <<M, parts, sel, u, hist>>
\* mostly one body against another; sometimes any lists
Against == { [prim |-> <<1>>, sec |-> <<2>>], [prim |-> <<2>>, sec |-> <<1>>], [prim |-> <<1, 3>>, sec |-> <<2>>], [prim |-> <<2>>, sec |-> <<3, 1>>] }
Choose == act = "sel" /\ \E s \in {IF Pick(1..5) = 1 THEN [prim |-> Pick(Lists), sec |-> Pick(Lists)] ELSE Pick(Against)} :
  sel' = s /\ act' = "work" /\ UNCHANGED <<M, parts>>
Build == (PickMesh \/ PickIds \/ PickPart \/ Choose \/ Work) /\ UNCHANGED <<u, hist>>
Motion(how) ==
  LET v == TLCEval([b \in 1..3 |-> IF how = 1 THEN <<0, 0, 0>> ELSE <<Pick(SHIFT), Pick(SHIFT), Pick(SHIFT)>>])
      d == TLCEval([n \in Range(M.nodes) |-> IF how < 3 THEN <<0, 0, 0>> ELSE <<Pick(-1..1), Pick(-1..1), Pick(-1..1)>>])
  IN TLCEval([n \in Range(M.nodes) |-> [i \in 1..3 |-> v[n[1]][i] + d[n][i]]])
Move == act = "move" /\ \E w \in {Motion(Pick({1, 2, 2, 3, 3, 3}))} : u' = w /\ act' = "eval" /\ UNCHANGED <<M, parts, sel, hist>>
Evaluate == act = "eval" /\ \E p \in {Pairs(u)} : \E way \in {Pick(0..2)} :
  LET h == [u |-> u, way |-> way, hits |-> p.hits] IN
  /\ hist' = (IF p.ok THEN Append(hist, h) ELSE hist)
  /\ act' = (IF p.ok /\ Len(hist) + 1 = STEPS THEN "end" ELSE "move")
  /\ UNCHANGED <<M, parts, sel, u>>
CNext == Build \/ Start \/ Move \/ Evaluate
CSpec == CInit /\ [][CNext]_cvars

\* the shares add up, and the forces have no moment: the node is above the point of the shares, along the normal
Balanced == hist # <<>> => \A h \in hist[Len(hist)].hits :
  /\ h.b[1] + h.b[2] + h.b[3] = h.nn
  /\ h.h < 0
  /\ LET x == Now(hist[Len(hist)].u, h.n) a == Now(hist[Len(hist)].u, h.q[h.k]) b == Now(hist[Len(hist)].u, h.q[(h.k % 4) + 1])
         f == [i \in 1..3 |-> (x[i] - h.c[i]) * h.nn - h.b[1] * (a[i] - h.c[i]) - h.b[2] * (b[i] - h.c[i])]
     IN \A i \in 1..3 : f[i] = h.h * h.N[i]
\* without motion nothing has happened yet if the bodies are apart
Hit(h) == [n |-> M.gid[h.n], q |-> [k \in 1..4 |-> M.gid[h.q[((h.k + k - 2) % 4) + 1]]], b |-> h.b, h |-> h.h, N |-> h.N, nn |-> h.nn]
CEmission == SEmission @@ [steps |-> [s \in DOMAIN hist |->
   [way |-> hist[s].way, u |-> [k \in DOMAIN M.nodes |-> <<M.gid[M.nodes[k]], hist[s].u[M.nodes[k]]>>], hits |-> {Hit(h) : h \in hist[s].hits}]]]
EmitContact == act = "end" => PrintT("BEH " \o ToJson(CEmission))
=============================================================================
