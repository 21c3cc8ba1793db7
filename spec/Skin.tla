-------------------------------- MODULE Skin --------------------------------
(* Contact surfaces.                                                         *)
(*                                                                           *)
(* A mesh is a set of lattice cells, each in one of three blocks; blocks may *)
(* or may not share their nodes (bodies).  Cells are distributed over ranks. *)
(* The surface of a set of blocks is the set of faces of exactly one of its  *)
(* cells; the code finds it rank by rank and then discards the faces found   *)
(* on two ranks.  Each face is cut into four triangles at its centre, and    *)
(* each node of the surface of the secondary blocks is a contact node, on    *)
(* one rank.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANTS DIMS,     \* sizes of the lattice
          RANKS,    \* numbers of ranks
          NPART     \* partitions per mesh
VARIABLES act, M, parts, sel
svars == <<act, M, parts, sel>>

I3 == 1..3
Pick(S) == RandomElement(S)
Sg == << <<-1,-1,-1>>, <<1,-1,-1>>, <<1,1,-1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<1,-1,1>>, <<1,1,1>>, <<-1,1,1>> >>
Perms == << <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>> >>
Flips(k) == {f \in {<<a, b, c>> : a, b, c \in {-1, 1}} : f[1] * f[2] * f[3] = (IF k > 3 THEN -1 ELSE 1)}

\* nodes are <<body, lattice point>>
Body(m, c) == m.body[m.block[c]]
At(m, c, s) == <<Body(m, c), <<c[1] + s[1], c[2] + s[2], c[3] + s[3]>>>>
Conn(m, c) == LET r == m.rot[c] IN
  [a \in 1..8 |-> At(m, c, [i \in I3 |-> (Sg[a][Perms[r[1]][i]] * r[2][i] + 1) \div 2])]
\* a face of a cell: an axis and a side; its nodes in the order seen turning left from outside
FaceNames == I3 \X {0, 1}
Nx(i) == IF i = 3 THEN 1 ELSE i + 1
Corner3(i, a, b, c) == [k \in I3 |-> IF k = i THEN a ELSE IF k = Nx(i) THEN b ELSE c]
Cyc(m, c, f) ==
  LET i == f[1] s == f[2]
      v == << Corner3(i, s, 0, 0), Corner3(i, s, 1, 0), Corner3(i, s, 1, 1), Corner3(i, s, 0, 1) >>
      w == IF s = 1 THEN v ELSE << v[1], v[4], v[3], v[2] >>
  IN [k \in 1..4 |-> At(m, c, w[k])]
NodesOf(m) == UNION {{Conn(m, c)[a] : a \in 1..8} : c \in m.cells}

\* the faces of one cell only.  m.cyc and m.fs hold the faces of all cells, as sequences and as sets of nodes.
InBlocks(m, bs) == {c \in m.cells : m.block[c] \in bs}
Sides(m) == TLCEval(m.cells \X FaceNames)
WithFaces(m) ==
  LET cy == TLCEval([cf \in Sides(m) |-> Cyc(m, cf[1], cf[2])])
      fs == TLCEval([cf \in Sides(m) |-> Range(cy[cf])])
  IN m @@ [cyc |-> cy, fs |-> fs, fsof |-> TLCEval([c \in m.cells |-> {fs[<<c, f>>] : f \in FaceNames}])]
Surface(m, S) == TLCEval({cf \in S \X FaceNames : \A d \in S \ {cf[1]} : m.fs[cf] \notin m.fsof[d]})
SurfaceNodes(m, sf) == UNION {m.fs[cf] : cf \in sf}

\* ---- what the code does on the ranks
Mine(m, p, r, S) == {c \in S : p.rank[c] = r}
\* the faces each rank keeps: of its own surface, those no other rank has in its own
Kept(m, p, S) ==
  LET L == TLCEval([r \in 0..p.nr-1 |-> Surface(m, Mine(m, p, r, S))])
      F == TLCEval([r \in 0..p.nr-1 |-> {m.fs[cf] : cf \in L[r]}])
  IN TLCEval([r \in 0..p.nr-1 |-> {cf \in L[r] : \A q \in (0..p.nr-1) \ {r} : m.fs[cf] \notin F[q]}])
\* the rank that has the contact node: the lowest of those that have a face there
Owners(m, p, S) ==
  LET K == Kept(m, p, S) N == TLCEval([r \in 0..p.nr-1 |-> SurfaceNodes(m, K[r])])
  IN TLCEval([n \in UNION {N[r] : r \in 0..p.nr-1} |-> Min({r \in 0..p.nr-1 : n \in N[r]})])
\* (the lowest rank that has the node at all will not do, see NaiveOwner)
Holder(m, p, n) == Min({p.rank[c] : c \in {d \in m.cells : n \in Range(Conn(m, d))}})

-----------------------------------------------------------------------------
Lattice(d) == (0..d[1]-1) \X (0..d[2]-1) \X (0..d[3]-1)
Rots == TLCEval({<<k, f>> : k \in 1..6, f \in {<<a, b, c>> : a, b, c \in {-1, 1}}})
Orient == TLCEval({r \in Rots : r[2] \in Flips(r[1])})
Bodies == { <<1, 1, 1>>, <<1, 2, 1>>, <<1, 2, 2>>, <<1, 1, 2>>, <<1, 2, 3>> }
Mesh0(dummy) ==
  LET d == TLCEval(Pick(DIMS))
      keep == TLCEval(Pick({100, 100, 75, 50}))
      cs == TLCEval({c \in Lattice(d) : Pick(1..100) <= keep})
      how == TLCEval(Pick(1..3)) ax == TLCEval(Pick(I3))
      bl == TLCEval([c \in cs |-> IF how = 1 THEN Pick(1..3) ELSE IF how = 2 THEN 1 + (IF 2 * c[ax] >= d[ax] THEN 1 ELSE 0) ELSE 1])
      same == TLCEval(Pick({TRUE, FALSE}))
  IN [d |-> d, cells |-> cs, block |-> bl, body |-> TLCEval(Pick(Bodies)),
      rot |-> TLCEval([c \in cs |-> IF same THEN <<1, <<1, 1, 1>>>> ELSE Pick(Orient)])]
Primes == {61, 67, 71, 79, 83, 89, 97}
Numbered(m) ==
  LET ns == TLCEval(SetToSeq(NodesOf(m))) cs == TLCEval(SetToSeq(m.cells))
      p == TLCEval(Pick(Primes)) a == TLCEval(Pick(1..60)) b == TLCEval(Pick(0..60)) st == TLCEval(Pick({1, 1, 3})) of == TLCEval(Pick({0, 0, 40, 5000}))
      q == TLCEval(Pick(Primes)) e == TLCEval(Pick(1..60)) g == TLCEval(Pick(0..60)) ou == TLCEval(Pick({0, 0, 7, 900}))
  IN m @@ [nodes |-> ns, order |-> cs,
           gid |-> TLCEval([n \in Range(ns) |-> LET k == CHOOSE j \in DOMAIN ns : ns[j] = n IN st * ((a * k + b) % p) + of]),
           eid |-> TLCEval([c \in m.cells |-> LET k == CHOOSE j \in DOMAIN cs : cs[j] = c IN ((e * k + g) % q) + ou]),
           pos |-> TLCEval([n \in Range(ns) |-> [i \in I3 |-> 5 * n[2][i] + Pick(-1..1)]])]
Part(m, nr, dummy) ==
  LET how == TLCEval(Pick(1..3)) ax == TLCEval(Pick(I3))
  IN [nr |-> nr, rank |-> TLCEval([c \in m.cells |-> IF how = 1 THEN Pick(0..nr-1) ELSE IF how = 2 THEN m.block[c] % nr ELSE (nr * c[ax]) \div m.d[ax]])]
Used(m, p) == {p.rank[c] : c \in m.cells} = 0..p.nr-1
Lists == { <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<2, 3>>, <<1, 2, 3>>, <<3, 2, 1>>, <<1, 1>>, <<2, 1, 2>> }

SInit == act = "mesh" /\ M = <<>> /\ parts = <<>> /\ sel = <<>>
PickMesh == act = "mesh" /\ \E m \in {Mesh0(0)} : LET ok == m.cells # {} /\ Cardinality(NodesOf(m)) <= 60 IN
   /\ M' = (IF ok THEN m ELSE M) /\ act' = (IF ok THEN "ids" ELSE "mesh") /\ UNCHANGED <<parts, sel>>
PickIds == act = "ids" /\ \E m \in {WithFaces(Numbered(M))} : M' = m /\ act' = "parts" /\ UNCHANGED <<parts, sel>>
PickPart == act = "parts" /\ \E nr \in {Pick(RANKS)} : \E p \in {Part(M, nr, 0)} :
   LET ok == Used(M, p) small == nr > Cardinality(M.cells) IN
   /\ parts' = (IF ok THEN Append(parts, p) ELSE parts)
   /\ act' = (IF (ok /\ Len(parts) + 1 = NPART) \/ Cardinality(M.cells) = 1 THEN "sel" ELSE "parts")
   /\ UNCHANGED <<M, sel>>
PickSel == act = "sel" /\ \E s \in {[prim |-> Pick(Lists), sec |-> Pick(Lists)]} : act' = "work" /\ sel' = s /\ UNCHANGED <<M, parts>>
\* the surfaces, as a whole and on the ranks
Work == act = "work" /\ \E w \in {LET P == InBlocks(M, Range(sel.prim)) S == InBlocks(M, Range(sel.sec)) IN
                                   [P |-> P, S |-> S, sp |-> Surface(M, P), ss |-> Surface(M, S),
                                    own |-> TLCEval([j \in DOMAIN parts |-> Owners(M, parts[j], S)])]} :
          sel' = w @@ sel /\ act' = "done" /\ UNCHANGED <<M, parts>>
SNext == PickMesh \/ PickIds \/ PickPart \/ PickSel \/ Work
SSpec == SInit /\ [][SNext]_svars

-----------------------------------------------------------------------------
SDone == act = "done"
\* the boundary of a surface is empty: every edge is passed as often in either direction
Closed == SDone => \A sf \in {sel.sp, sel.ss} :
  LET E == TLCEval({<<cf, k>> : cf \in sf, k \in 1..4})
      Dir(x) == <<M.cyc[x[1]][x[2]], M.cyc[x[1]][(x[2] % 4) + 1]>>
      D == TLCEval([x \in E |-> Dir(x)])
      N(a, b) == Cardinality({x \in E : D[x] = <<a, b>>})
  IN \A x \in E : N(D[x][1], D[x][2]) = N(D[x][2], D[x][1])
\* rank by rank, the same surface
Distributed == SDone => \A j \in DOMAIN parts : \A S \in {sel.P, sel.S} : \E K \in {Kept(M, parts[j], S)} :
  /\ UNION {K[r] : r \in 0..parts[j].nr-1} = Surface(M, S)
  /\ \A r, q \in 0..parts[j].nr-1 : r # q => K[r] \cap K[q] = {}
\* every contact node is on one rank
OwnersOk == SDone => \A j \in DOMAIN parts : DOMAIN sel.own[j] = SurfaceNodes(M, sel.ss)
\* the numbering is one
NumberingOk == SDone =>
  /\ \A m, n \in DOMAIN M.gid : M.gid[m] = M.gid[n] => m = n
  /\ \A m, n \in M.cells : M.eid[m] = M.eid[n] => m = n
\* identifiers as the code makes them: node + 1, and ((element + 1 + largest node) * 8 + face) * 4 + triangle
MaxGid == Max(Range(M.gid))
FaceId(c, k) == ((M.eid[c] + 1 + MaxGid) * 8 + k) * 4
IdsDistinct == SDone =>
  /\ \A c \in M.cells : FaceId(c, 0) > MaxGid + 1
  /\ \A c, d \in M.cells : M.eid[c] < M.eid[d] => FaceId(c, 5) + 3 < FaceId(d, 0)
\* not an invariant: the lowest rank that has the node at all may have no face there
NaiveOwner == SDone => \A j \in DOMAIN parts : \A n \in DOMAIN sel.own[j] : sel.own[j][n] = Holder(M, parts[j], n)

DistSq(a, b) == LET v == [i \in I3 |-> M.pos[a][i] - M.pos[b][i]] IN v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
QuadLen(q) == Max({DistSq(q[k], q[(k % 4) + 1]) : k \in 1..4})
Quads(sf) == {[e |-> M.eid[cf[1]], q |-> [k \in 1..4 |-> M.gid[M.cyc[cf][k]]], l |-> QuadLen(M.cyc[cf])] : cf \in sf}
NodeLen(n) == Max({QuadLen(M.cyc[cf]) : cf \in {g \in sel.ss : n \in M.fs[g]}})
SEmission == [nodes |-> [k \in DOMAIN M.nodes |-> <<M.gid[M.nodes[k]], M.pos[M.nodes[k]]>>],
  cells |-> [k \in DOMAIN M.order |-> LET c == M.order[k] IN
     [e |-> M.eid[c], b |-> M.block[c], conn |-> [a \in 1..8 |-> M.gid[Conn(M, c)[a]]], ranks |-> [j \in DOMAIN parts |-> parts[j].rank[c]]]],
  nr |-> [j \in DOMAIN parts |-> parts[j].nr], prim |-> sel.prim, sec |-> sel.sec,
  quads |-> Quads(sel.sp), cnodes |-> {<<M.gid[n], NodeLen(n)>> : n \in SurfaceNodes(M, sel.ss)}]
EmitSkin == SDone => PrintT("BEH " \o ToJson(SEmission))
=============================================================================
