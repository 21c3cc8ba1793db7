-------------------------------- MODULE Hex ---------------------------------
(* One trilinear hexahedron, exactly.                                        *)
(*                                                                           *)
(* The element has eight corners, placed anywhere as long as the map from    *)
(* the unit cube is orientation preserving at the eight Gauss points, and    *)
(* eight displaced corners.  All quantities the code computes for an element *)
(* are defined here from the shape functions  N_a = prod (1 + s s_a) / 8  at *)
(* the points  s = +-1/sqrt 3  in the order of the corners.                  *)
(*                                                                           *)
(* Scales: DN = 12 dN/dxi, NV = 36 N, Jac = 12 dx/dxi, hence Det = 1728 det  *)
(* and G = 1728 det dN/dx.                                                   *)
EXTENDS Root3, Json

CONSTANTS PERT,     \* perturbations of a corner
          MOVES     \* displacements of a corner

VARIABLES X, x, act, dat, geo
vars == <<X, x, act, dat, geo>>

Q == 1..8                                  \* corners, and integration points
Sg == << <<-1,-1,-1>>, <<1,-1,-1>>, <<1,1,-1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<1,-1,1>>, <<1,1,1>>, <<-1,1,1>> >>
Agree(a, q, I) == Cardinality({i \in I : Sg[a][i] = Sg[q][i]})
DNv(a, q, i) == LET m == Agree(a, q, I3 \ {i}) IN
  Times(Sg[a][i], CASE m = 2 -> <<2, 1>> [] m = 1 -> <<1, 0>> [] OTHER -> <<2, -1>>)
DN == TLCEval([q \in Q |-> [a \in Q |-> [i \in I3 |-> DNv(a, q, i)]]])
NV == TLCEval([q \in Q |-> [a \in Q |-> LET m == Agree(a, q, I3) IN
  CASE m = 3 -> <<9, 5>> [] m = 2 -> <<3, 1>> [] m = 1 -> <<3, -1>> [] OTHER -> <<9, -5>>]])

Jac(c, q) == TLCEval([i \in I3 |-> [j \in I3 |-> Sum8(LAMBDA a : Times(c[a][i], DN[q][a][j]))]])
\* clear of degenerate: 1728 det > 40
Admissible(c) == \A q \in Q : Positive(Sub(Det(Jac(c, q)), N(40)))
\* the geometry of a placement of the corners: J = 12 dx/dxi, K its cofactors, D = 1728 det, G = 1728 det dN/dx, V = 1728 volume
Geometry(c) ==
  LET J == TLCEval([q \in Q |-> Jac(c, q)])
      K == TLCEval([q \in Q |-> Cof(J[q])])
      D == TLCEval([q \in Q |-> Det(J[q])])
      G == TLCEval([q \in Q |-> [a \in Q |-> [i \in I3 |-> Sum3(LAMBDA k : Mul(K[q][i][k], DN[q][a][k]))]]])
  IN [J |-> J, K |-> K, D |-> D, G |-> G, V |-> TLCEval(Sum8(LAMBDA q : D[q]))]

\* ---- what the element is asked for.  A number is a list of terms <<n, m, d>>, meaning the sum of n*m/d;
\* <<n, m, d, e>> stands for n*m/(d*e).
One == <<1, 0>>
Volume(g) == <<g.V, One, N(1728)>>
Mass(g, rho) == TLCEval([a \in Q |-> <<Times(rho, Sum8(LAMBDA q : Mul(NV[q][a], g.D[q]))), One, N(36 * 1728)>>])
DefGrad(g0, g1) == TLCEval([q \in Q |-> [i \in I3 |-> [j \in I3 |->
                     <<Sum3(LAMBDA k : Mul(g1.J[q][i][k], g0.K[q][j][k])), g0.D[q]>>]]])
\* integral of sum_j s_ij dN_a/dx_j over the deformed element, negative: s is per point, symmetric, integer
Force(g, s) == TLCEval([a \in Q |-> [i \in I3 |->
                 <<Times(-1, Sum8(LAMBDA q : Sum3(LAMBDA j : Times(s[q][i][j], g.G[q][a][j])))), One, N(1728)>>]])
\* elastic: stress of the deformation gradient
ElasticStress(F, l, m) ==
  TLCEval([q \in Q |-> LET d == F[q][1][1][2]
                           e(i, j) == IF i = j THEN Times(2, Sub(F[q][i][i][1], d)) ELSE Add(F[q][i][j][1], F[q][j][i][1])
                           tr == TLCEval(Sum3(LAMBDA i : Sub(F[q][i][i][1], d)))
                       IN [i \in I3 |-> [j \in I3 |-> <<Add(Times(m, e(i, j)), IF i = j THEN Times(l, tr) ELSE Z), d>>]]])
ElasticForce(g, s) ==
  [a \in Q |-> [i \in I3 |-> [k \in 1..24 |->
     LET q == ((k - 1) \div 3) + 1 j == ((k - 1) % 3) + 1 IN <<s[q][i][j][1], Times(-1, g.G[q][a][j]), Times(1728, s[q][i][j][2])>>]]]
\* average over the deformed element of a quantity given as numerator and denominator per point
Average(g, f(_)) == TLCEval([q \in Q |-> LET z == f(q) IN <<z[1], g.D[q], z[2], g.V>>])

\* ---- stiffness: column (b, j) of  sum_q B' C_q B det, rows of B: xx yy zz xy yz zx
Sym == << <<1,1>>, <<2,2>>, <<3,3>>, <<1,2>>, <<2,3>>, <<3,1>> >>
\* component k of the strain of a displacement of corner b in direction j, times 1728 det
Brow(g, q, b, j, k) == LET p == Sym[k] IN
  IF p[1] = p[2] THEN (IF p[1] = j THEN g.G[q][b][j] ELSE Z)
  ELSE IF p[1] = j THEN g.G[q][b][p[2]] ELSE IF p[2] = j THEN g.G[q][b][p[1]] ELSE Z
Column(g, C, b, j) ==
  LET t == TLCEval([q \in Q |-> [k \in 1..6 |-> Sum6(LAMBDA l : Times(C[q][k][l], Brow(g, q, b, j, l)))]])
  IN TLCEval([a \in Q |-> [i \in I3 |->
       LET all == [n \in 1..48 |-> LET q == ((n - 1) \div 6) + 1 k == ((n - 1) % 6) + 1 IN <<Brow(g, q, a, i, k), t[q][k], Times(1728, g.D[q])>>]
       IN SelectSeq(all, LAMBDA y : y[1] # Z /\ y[2] # Z)]])

\* ---- smallest distance of two corners, and smallest extent, squared
Sq(c, a, b) == (c[a][1] - c[b][1])^2 + (c[a][2] - c[b][2])^2 + (c[a][3] - c[b][3])^2
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w
Extent(c, i) == MaxOf({c[a][i] : a \in Q}) - MinOf({c[a][i] : a \in Q})
LengthSq(c) == MinOf({Sq(c, a, b) : <<a, b>> \in {p \in Q \X Q : p[1] < p[2]}} \cup {Extent(c, i)^2 : i \in I3})

-----------------------------------------------------------------------------
(* Generation: a box in one of the 24 positions, distorted; its corners moved *)
Perms == << <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>> >>
Odd(k) == k > 3
Box(h, k, f) ==      \* corner a of the box: axes permuted, two or one of them reversed to keep the orientation
  [a \in Q |-> [i \in I3 |-> LET s == Sg[a][Perms[k][i]] * f[i] IN (h[i] * (s + 1)) \div 2]]
Flips(k) == {f \in {<<a, b, c>> : a, b, c \in {-1, 1}} : f[1] * f[2] * f[3] = (IF Odd(k) THEN -1 ELSE 1)}
Rnd(S) == RandomElement(S)
Shapes(dummy) ==
  LET h == TLCEval(<<Rnd(2..4), Rnd(2..4), Rnd(2..4)>>)
      k == TLCEval(Rnd(1..6)) f == TLCEval(Rnd(Flips(k)))
      p == TLCEval([a \in Q |-> [i \in I3 |-> Rnd(PERT)]])
  IN TLCEval([a \in Q |-> [i \in I3 |-> Box(h, k, f)[a][i] + p[a][i]]])
\* affine maps with a positive determinant, and small arbitrary moves
Mats == { << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>, << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >>,
          << <<1,1,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,0,0>>, <<0,1,0>>, <<0,2,1>> >>, << <<2,0,0>>, <<0,1,0>>, <<0,0,1>> >>,
          << <<1,0,-1>>, <<0,1,1>>, <<1,0,1>> >>, << <<2,0,0>>, <<0,2,0>>, <<0,0,2>> >>, << <<1,0,0>>, <<0,-1,0>>, <<0,0,-1>> >> }
Affine(A, c, v) == TLCEval([a \in Q |-> [i \in I3 |-> A[i][1] * c[a][1] + A[i][2] * c[a][2] + A[i][3] * c[a][3] + v[i]]])

Init == act = "shape" /\ X = <<>> /\ x = <<>> /\ dat = <<>> /\ geo = <<>>
PickShape == act = "shape" /\ \E c \in {Shapes(0)} : LET ok == Admissible(c) IN
               X' = (IF ok THEN c ELSE X) /\ act' = (IF ok THEN "move" ELSE "shape") /\ UNCHANGED <<x, dat, geo>>
PickMove == act = "move" /\ \E r \in {[A |-> Rnd(Mats), v |-> <<Rnd(-3..3), Rnd(-3..3), Rnd(-3..3)>>, how |-> Rnd(1..3),
                                       m |-> [a \in Q |-> [i \in I3 |-> Rnd(MOVES)]]]} :
            \E c \in {IF r.how = 1 THEN Affine(r.A, X, r.v)
                      ELSE LET y == IF r.how = 2 THEN X ELSE Affine(r.A, X, r.v) IN [a \in Q |-> [i \in I3 |-> y[a][i] + r.m[a][i]]]} :
            LET ok == Admissible(c) IN
              x' = (IF ok THEN c ELSE x) /\ act' = (IF ok THEN "data" ELSE "move") /\ UNCHANGED <<X, geo>>
              /\ dat' = (IF ok THEN [A |-> r.A, how |-> r.how] ELSE <<>>)
SymMat(s) == << <<s[1], s[4], s[6]>>, <<s[4], s[2], s[5]>>, <<s[6], s[5], s[3]>> >>
PickData == act = "data" /\ \E r \in {[l |-> Rnd(0..4), m |-> Rnd(1..4), rho |-> Rnd(1..7),
                                       s |-> [q \in Q |-> [k \in 1..6 |-> Rnd(-3..3)]],
                                       C |-> [k \in 1..6 |-> [l \in 1..6 |-> Rnd(-2..5)]], vary |-> Rnd({TRUE, FALSE}),
                                       f9 |-> [q \in Q |-> [k \in 1..9 |-> Rnd(-5..5)]],
                                       b |-> Rnd(Q), j |-> Rnd(I3)]} :
            dat' = r @@ dat /\ act' = "done" /\ UNCHANGED <<X, x>>
            /\ \E g0 \in {Geometry(X)} : \E g1 \in {Geometry(x)} : geo' = [g0 |-> g0, g1 |-> g1, F |-> DefGrad(g0, g1)]
Next == PickShape \/ PickMove \/ PickData
Spec == Init /\ [][Next]_vars

\* a symmetric tangent; the same or a different one at every point
Tang == TLCEval([q \in Q |-> [k \in 1..6 |-> [l \in 1..6 |-> LET a == IF k < l THEN k ELSE l b == IF k < l THEN l ELSE k IN
           dat.C[a][b] + (IF dat.vary /\ k = l THEN q ELSE 0)]]])
Iso(l, m) == [k \in 1..6 |-> [n \in 1..6 |-> (IF k <= 3 /\ n <= 3 THEN l ELSE 0) + (IF k = n THEN (IF k <= 3 THEN 2 * m ELSE m) ELSE 0)]]
Sig == TLCEval([q \in Q |-> SymMat(dat.s[q])])

-----------------------------------------------------------------------------
(* Properties of the definitions *)
Done == act = "done"
Unity == \A q \in Q : Sum8(LAMBDA a : NV[q][a]) = N(36) /\ \A i \in I3 : Sum8(LAMBDA a : DN[q][a][i]) = Z
\* the masses are positive and add up to density times volume
MassSum == Done => LET m == Mass(geo.g0, dat.rho) IN
  /\ Sum8(LAMBDA a : m[a][1]) = Times(36 * dat.rho, geo.g0.V)
  /\ \A a \in Q : Positive(m[a][1])
\* volumes are rational
VolumeRational == Done => geo.g0.V[2] = 0 /\ geo.g1.V[2] = 0
\* an affine motion has its matrix as deformation gradient at every point
AffineExact == (Done /\ dat.how = 1) => \A q \in Q : \A i, j \in I3 :
  LET f == geo.F[q][i][j] IN f[1] = Times(dat.A[i][j], f[2])
\* volumes change by the determinant
AffineVolume == (Done /\ dat.how = 1) => geo.g1.V = Times(Det([i \in I3 |-> [j \in I3 |-> N(dat.A[i][j])]])[1], geo.g0.V)
\* forces of symmetric stresses are in equilibrium, with their moments
Balance == Done => LET f == Force(geo.g1, Sig) IN
  /\ \A i \in I3 : Sum8(LAMBDA a : f[a][i][1]) = Z
  /\ \A i \in I3 : Sum8(LAMBDA a : Sub(Times(x[a][Nx(i)], f[a][Nx(Nx(i))][1]), Times(x[a][Nx(Nx(i))], f[a][Nx(i)][1]))) = Z
\* a uniform stress: sum_a f_ai x_aj = - s_ij V
Virial == Done => LET s == Sig[1] f == Force(geo.g1, [q \in Q |-> s]) IN
  \A i, j \in I3 : Sum8(LAMBDA a : Times(x[a][j], f[a][i][1])) = Times(-s[i][j], geo.g1.V)
\* gradients of the shape functions: translations do no work, coordinates are reproduced
ColumnBalance == Done => \A q \in Q : \A i \in I3 : Sum8(LAMBDA a : geo.g0.G[q][a][i]) = Z
Linear == Done => \A q \in Q : \A i, j \in I3 : Sum8(LAMBDA a : Times(X[a][j], geo.g0.G[q][a][i])) = (IF i = j THEN geo.g0.D[q] ELSE Z)

Emission ==
  LET E == ElasticStress(geo.F, dat.l, dat.m) g0 == geo.g0 g1 == geo.g1 IN
  [X |-> X, x |-> x, rho |-> dat.rho, l |-> dat.l, m |-> dat.m, s |-> dat.s, f9 |-> dat.f9, how |-> dat.how,
   vol0 |-> Volume(g0), vol |-> Volume(g1), mass |-> Mass(g0, dat.rho), F |-> geo.F, lsq |-> LengthSq(X), lsqx |-> LengthSq(x),
   force |-> Force(g1, Sig), E |-> E, eforce |-> ElasticForce(g1, E),
   aveF |-> [i \in I3 |-> [j \in I3 |-> Average(g1, LAMBDA q : geo.F[q][i][j])]],
   aveE |-> [i \in I3 |-> [j \in I3 |-> Average(g1, LAMBDA q : E[q][i][j])]],
   ave9 |-> [k \in 1..9 |-> Average(g1, LAMBDA q : <<N(dat.f9[q][k]), One>>)],
   C |-> Tang, b |-> dat.b, j |-> dat.j, col |-> Column(g1, Tang, dat.b, dat.j),
   iso |-> Iso(dat.l, dat.m), isocol |-> Column(g0, [q \in Q |-> Iso(dat.l, dat.m)], dat.b, dat.j)]
EmitInv == Done => PrintT("BEH " \o ToJson(Emission))
=============================================================================
