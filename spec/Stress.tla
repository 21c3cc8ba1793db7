------------------------------- MODULE Stress -------------------------------
(* Stress of a deformation gradient.                                         *)
(*                                                                           *)
(* Deformation gradients are built as products of shears, stretches and      *)
(* rational rotations: F = N / d with an integer matrix N.  A component of a *)
(* stress is a list of terms <<n, m, e>>, meaning the sum of (n/m) J^(e/3)   *)
(* with J = det F; this keeps everything exact, J^(-2/3) of the neohookean   *)
(* model included.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXF, MAXN

VARIABLES F, list, act, dat
vars == <<F, list, act, dat>>

I3 == 1..3
Sum3(f(_)) == f(1) + f(2) + f(3)
MatMul(a, b) == TLCEval([i \in I3 |-> [j \in I3 |-> Sum3(LAMBDA k : a[i][k] * b[k][j])]])
Tr(a) == [i \in I3 |-> [j \in I3 |-> a[j][i]]]
DetI(a) == a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
           + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
Id == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Delta(i, j) == IF i = j THEN 1 ELSE 0
\* rotations, as [n |-> N, d |-> d]
Rots == { [n |-> Id, d |-> 1], [n |-> << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>, d |-> 1], [n |-> << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >>, d |-> 1],
          [n |-> << <<-1,0,0>>, <<0,-1,0>>, <<0,0,1>> >>, d |-> 1], [n |-> << <<3,-4,0>>, <<4,3,0>>, <<0,0,5>> >>, d |-> 5],
          [n |-> << <<5,0,0>>, <<0,4,3>>, <<0,-3,4>> >>, d |-> 5], [n |-> << <<1,-2,2>>, <<2,-1,-2>>, <<2,2,1>> >>, d |-> 3],
          [n |-> << <<0,0,-1>>, <<0,1,0>>, <<1,0,0>> >>, d |-> 1], [n |-> << <<1,0,0>>, <<0,-1,0>>, <<0,0,-1>> >>, d |-> 1] }
Shears == {[n |-> [i \in I3 |-> [j \in I3 |-> IF i = a /\ j = b THEN v ELSE w * Delta(i, j)]], d |-> w] :
             a \in I3, b \in I3, v \in {-2, -1, 1, 2}, w \in {1, 2, 10}} 
Stretches == {[n |-> << <<a,0,0>>, <<0,b,0>>, <<0,0,c>> >>, d |-> w] : a, b, c \in {1, 2, 3}, w \in {1, 2}}
             \cup {[n |-> << <<a,0,0>>, <<0,b,0>>, <<0,0,c>> >>, d |-> 10] : a, b, c \in {9, 10, 11}}
Compose(a, b) == [n |-> MatMul(a.n, b.n), d |-> a.d * b.d]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Reduce(f) == LET g == Gcd(f.d, Gcd(Gcd(Gcd(Abs(f.n[1][1]), Abs(f.n[1][2])), Gcd(Abs(f.n[1][3]), Abs(f.n[2][1]))),
                          Gcd(Gcd(Abs(f.n[2][2]), Abs(f.n[2][3])), Gcd(Gcd(Abs(f.n[3][1]), Abs(f.n[3][2])), Abs(f.n[3][3])))))
             IN TLCEval([n |-> [i \in I3 |-> [j \in I3 |-> f.n[i][j] \div g]], d |-> f.d \div g])
Small(f) == f.d <= 100 /\ \A i, j \in I3 : Abs(f.n[i][j]) <= 60
IsRot(f) == MatMul(f.n, Tr(f.n)) = [i \in I3 |-> [j \in I3 |-> f.d * f.d * Delta(i, j)]] /\ DetI(f.n) = f.d * f.d * f.d

\* ---- the models: component (i, j) as terms <<n, m, e>>
Elastic(f, K, G, i, j) ==
  LET e2 == f.n[i][j] + f.n[j][i] - 2 * f.d * Delta(i, j)
      tr == Sum3(LAMBDA k : f.n[k][k] - f.d)
  IN << <<G * e2, f.d, 0>>, <<Delta(i, j) * (3 * K - 2 * G) * tr, 3 * f.d, 0>> >>
\* 3 d^2 dev(F F')
DevB(f, i, j) == LET B(a, b) == Sum3(LAMBDA k : f.n[a][k] * f.n[b][k]) IN 3 * B(i, j) - Delta(i, j) * Sum3(LAMBDA k : B(k, k))
NeoHookean(f, K, G, i, j) ==
  << <<G * DevB(f, i, j), 3 * f.d * f.d, -5>>,
     <<Delta(i, j) * K, 2, 3>>, <<-Delta(i, j) * K, 2, -3>> >>
Sym == << <<1,1>>, <<2,2>>, <<3,3>>, <<1,2>>, <<2,3>>, <<3,1>> >>
StressOf(model, f, K, G) == [k \in 1..6 |-> IF model = "elastic" THEN Elastic(f, K, G, Sym[k][1], Sym[k][2]) ELSE NeoHookean(f, K, G, Sym[k][1], Sym[k][2])]
\* isotropic tangent, times 3
Tangent3(K, G) == [k \in 1..6 |-> [l \in 1..6 |-> (IF k <= 3 /\ l <= 3 THEN 3 * K - 2 * G ELSE 0) + (IF k = l THEN (IF k <= 3 THEN 6 * G ELSE 3 * G) ELSE 0)]]

Init == F = [n |-> Id, d |-> 1] /\ list = <<>> /\ act = "build" /\ dat = <<0>>
\* act: "build" a gradient by up to MAXF factors, put it on the list, up to MAXN of them, then choose the material
Multiply == act = "build" /\ dat[1] < MAXF /\ \E kind \in {RandomElement(1..3)} :
            \E g \in {RandomElement(CASE kind = 1 -> Rots [] kind = 2 -> {s \in Shears : DetI(s.n) > 0} [] OTHER -> Stretches)} :
            \E left \in {RandomElement({TRUE, FALSE})} :
              LET h == Reduce(IF left THEN Compose(g, F) ELSE Compose(F, g)) IN
              F' = (IF Small(h) THEN h ELSE F) /\ dat' = <<dat[1] + 1>> /\ UNCHANGED <<list, act>>
Take == act = "build" /\ Len(list) < MAXN /\ list' = Append(list, F) /\ dat' = <<0>>
        /\ \E keep \in {RandomElement({TRUE, FALSE})} : F' = (IF keep THEN F ELSE [n |-> Id, d |-> 1])
        /\ UNCHANGED act
Choose == act = "build" /\ Len(list) > 0 /\ \E r \in {[model |-> RandomElement({"elastic", "neohookean"}), K |-> RandomElement(1..9), G |-> RandomElement(1..9),
                                                     R |-> RandomElement(Rots)]} :
          dat' = r /\ act' = "done" /\ UNCHANGED <<F, list>>
Next == Multiply \/ Take \/ Choose
Spec == Init /\ [][Next]_vars

Done == act = "done"
Admissible == DetI(F.n) > 0
\* no deformation, no stress: a rotation gives a pure power law that cancels
StressFree == Done => \A k \in 1..Len(list) : LET f == list[k] IN IsRot(f) => \A i, j \in I3 : DevB(f, i, j) = 0
\* a superposed rotation turns the stress with it (neohookean); 9 d^2 ... compared on the deviators
Objective == Done => \A k \in 1..Len(list) : LET f == list[k] r == dat.R rf == Compose(r, f) IN
  Small(rf) => /\ DetI(rf.n) = DetI(f.n) * r.d * r.d * r.d
               /\ \A i, j \in I3 : DevB(rf, i, j) = Sum3(LAMBDA a : Sum3(LAMBDA b : r.n[i][a] * DevB(f, a, b) * r.n[j][b]))
\* the stretch may be turned from the right without effect (isotropy)
Isotropic == Done => \A k \in 1..Len(list) : LET f == list[k] fr == Compose(f, dat.R) IN
  Small(fr) => \A i, j \in I3 : DevB(fr, i, j) = dat.R.d * dat.R.d * DevB(f, i, j)
TraceFree == Done => \A k \in 1..Len(list) : Sum3(LAMBDA i : DevB(list[k], i, i)) = 0
\* small strains: the elastic stress is the tangent applied to the strain
Hooke == (Done /\ dat.model = "elastic") => \A k \in 1..Len(list) : LET f == list[k]
     strain == [l \in 1..6 |-> LET i == Sym[l][1] j == Sym[l][2] IN IF i = j THEN f.n[i][i] - f.d ELSE f.n[i][j] + f.n[j][i]]
  IN \A c \in 1..6 : LET t == Elastic(f, dat.K, dat.G, Sym[c][1], Sym[c][2])
                         C == Tangent3(dat.K, dat.G)
                     IN 3 * t[1][1] + t[2][1] = C[c][1]*strain[1] + C[c][2]*strain[2] + C[c][3]*strain[3] + C[c][4]*strain[4] + C[c][5]*strain[5] + C[c][6]*strain[6]
Emission == [model |-> dat.model, K |-> dat.K, G |-> dat.G, R |-> dat.R,
             pts |-> [k \in 1..Len(list) |-> [n |-> list[k].n, d |-> list[k].d, J |-> <<DetI(list[k].n), list[k].d * list[k].d * list[k].d>>,
                                              s |-> StressOf(dat.model, list[k], dat.K, dat.G), rot |-> IsRot(list[k])]],
             t3 |-> Tangent3(dat.K, dat.G)]
EmitInv == Done => PrintT("BEH " \o ToJson(Emission))
=============================================================================
