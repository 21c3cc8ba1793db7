------------------------------- MODULE Tensor -------------------------------
(* The tensor kernel: 3x3 tensors, symmetric tensors, rotations, polar        *)
(* decompositions and direct solutions of small systems, over the rationals.  *)
(*                                                                            *)
(* A tensor is [m |-> 3x3 integers, d |-> positive integer], in lowest terms. *)
(* A behaviour is a history of operations on four registers of full tensors   *)
(* and three of symmetric ones; where the kernel's documents allow a result   *)
(* to replace an operand, the registers may coincide.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXOPS, BIG
VARIABLES f, s, log, act
vars == <<f, s, log, act>>
Rnd(S) == RandomElement(S)
I3 == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Max2(a, b) == IF a < b THEN b ELSE a
Mat(g(_, _)) == <<<<g(1, 1), g(1, 2), g(1, 3)>>, <<g(2, 1), g(2, 2), g(2, 3)>>, <<g(3, 1), g(3, 2), g(3, 3)>>>>
Fold(m, g(_, _), z) == g(g(g(g(g(g(g(g(g(z, m[1][1]), m[1][2]), m[1][3]), m[2][1]), m[2][2]), m[2][3]), m[3][1]), m[3][2]), m[3][3])
GcdOf(m, d) == Fold(m, LAMBDA a, b : Gcd(a, Abs(b)), d)
Norm(m, d) == LET q == TLCEval(GcdOf(m, d)) IN [m |-> Mat(LAMBDA i, j : IF m[i][j] < 0 THEN -((-m[i][j]) \div q) ELSE m[i][j] \div q), d |-> d \div q]
Size(t) == Max2(Fold(t.m, LAMBDA a, b : Max2(a, Abs(b)), 0), t.d)
Small(t) == Size(t) <= BIG
Tiny(t) == Size(t) <= 4 /\ t.d <= 2

IntMul(a, b) == Mat(LAMBDA i, j : a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j])
Tr(a) == Mat(LAMBDA i, j : a[j][i])
IntDet(a) == a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1]) + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
Nx(i) == (i % 3) + 1
Adj(a) == Mat(LAMBDA j, i : a[Nx(i)][Nx(j)] * a[Nx(Nx(i))][Nx(Nx(j))] - a[Nx(i)][Nx(Nx(j))] * a[Nx(Nx(i))][Nx(j)])
One == Mat(LAMBDA i, j : IF i = j THEN 1 ELSE 0)

\* the operations, on rational tensors
T(m) == Norm(m, 1)
Zero == T(Mat(LAMBDA i, j : 0))
MulT(a, b) == Norm(IntMul(a.m, b.m), a.d * b.d)
AddT(a, b) == Norm(Mat(LAMBDA i, j : a.m[i][j] * b.d + b.m[i][j] * a.d), a.d * b.d)
ScaleT(n, d, a) == Norm(Mat(LAMBDA i, j : n * a.m[i][j]), d * a.d)
TrT(a) == [a EXCEPT !.m = Tr(a.m)]
SymT(a) == Norm(Mat(LAMBDA i, j : a.m[i][j] + a.m[j][i]), 2 * a.d)
SkewT(a) == Norm(Mat(LAMBDA i, j : a.m[i][j] - a.m[j][i]), 2 * a.d)
Comm(a, b) == AddT(MulT(a, b), ScaleT(-1, 1, MulT(b, a)))
\* Baker, Campbell, Hausdorff to fourth order, by commutators
BchT(x, y) == LET c == Comm(x, y) IN
  AddT(AddT(AddT(x, y), ScaleT(1, 2, c)), AddT(ScaleT(1, 12, AddT(Comm(x, c), Comm(y, Comm(y, x)))), ScaleT(-1, 24, Comm(y, Comm(x, c)))))
DetT(a) == [n |-> IntDet(a.m), d |-> a.d]                   \* n / d^3
InvT(a) == Norm(Mat(LAMBDA i, j : Adj(a.m)[i][j] * a.d), IntDet(a.m))
\* the rotation of a quaternion, over the square of its length
Sq(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Rot(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  Norm(<<<<w*w + x*x - y*y - z*z, 2*x*y - 2*w*z, 2*x*z + 2*w*y>>, <<2*x*y + 2*w*z, w*w - x*x + y*y - z*z, 2*y*z - 2*w*x>>, <<2*x*z - 2*w*y, 2*y*z + 2*w*x, w*w - x*x - y*y + z*z>>>>, Sq(q))
\* Q diag(l) Q'
Spectral(Q, l, d) == MulT(MulT(Q, Norm(Mat(LAMBDA i, j : IF i = j THEN l[i] ELSE 0), d)), TrT(Q))

FR == 1..4
SR == 1..3

RndMat(S) == TLCEval(Mat(LAMBDA i, j : Rnd(S)))
Quat(k) == TLCEval([i \in 1..4 |-> Rnd({-3, -2, -1, 0, 1, 2, 3} \ (IF Rnd(1..3) = 1 THEN {-3, 3, -1, 1} ELSE {}))])
IsQuat(q) == Sq(q) > 0
Pos == {1, 1, 2, 3, 4, 6}

Put(op, args, r, v) == f' = [f EXCEPT ![r] = v] /\ s' = s /\ log' = Append(log, [op |-> op, args |-> args, to |-> r, full |-> v])
PutS(op, args, r, v) == s' = [s EXCEPT ![r] = v] /\ f' = f /\ log' = Append(log, [op |-> op, args |-> args, to |-> r, sym |-> v])
Say(op, args, v) == UNCHANGED <<f, s>> /\ log' = Append(log, [op |-> op, args |-> args, val |-> v])
Go == act = "run" /\ Len(log) < MAXOPS /\ UNCHANGED act

Init == act = "run" /\ f = [r \in FR |-> T(One)] /\ s = [r \in SR |-> T(One)] /\ log = <<>>
LoadF == Go /\ \E r \in {Rnd(FR)} : \E k \in {Rnd(1..3)} : \E m \in {IF k = 1 THEN RndMat(-3..3) ELSE IF k = 2 THEN RndMat({-1, 0, 0, 0, 1}) ELSE RndMat(-1..2)} : \E d \in {Rnd({1, 1, 2, 4})} :
  \E v \in {Norm(m, d)} : Put("load", <<>>, r, v)
LoadRot == Go /\ \E r \in {Rnd(FR)} : \E q \in {Quat(1)} : IsQuat(q) /\ Put("load", <<>>, r, Rot(q))
LoadS == Go /\ \E r \in {Rnd(SR)} : \E m \in {RndMat(-4..4)} : \E d \in {Rnd({1, 1, 2, 5})} : PutS("loads", <<>>, r, Norm(Mat(LAMBDA i, j : IF i <= j THEN m[i][j] ELSE m[j][i]), d))
Binary == Go /\ \E a \in {Rnd(FR)} : \E b \in {Rnd(FR)} : \E c \in {Rnd(FR)} : \E op \in {Rnd({"mul", "sum", "mulk", "bch"})} : \E k \in {Rnd({<<1, 2>>, <<-1, 1>>, <<3, 1>>, <<-2, 3>>})} :
  \/ op = "sum" /\ \E v \in {AddT(f[a], f[b])} : Small(v) /\ Put("sum", <<a, b>>, c, v)
  \/ op = "mul" /\ c \notin {a, b} /\ \E v \in {MulT(f[a], f[b])} : Small(v) /\ Put("mul", <<a, b>>, c, v)
  \/ op = "mulk" /\ c \notin {a, b} /\ \E v \in {ScaleT(k[1], k[2], MulT(f[a], f[b]))} : Small(v) /\ Put("mulk", <<k, a, b>>, c, v)
  \/ op = "bch" /\ c \notin {a, b} /\ Tiny(f[a]) /\ Tiny(f[b]) /\ \E v \in {BchT(f[a], f[b])} : Put("bch", <<a, b>>, c, v)
Mixed == Go /\ \E a \in {Rnd(SR)} : \E b \in {Rnd(FR)} : \E c \in {Rnd(FR)} : \E op \in {Rnd({"smul", "mulst", "ssum", "sbch"})} :
  \/ op = "ssum" /\ c # b /\ \E v \in {AddT(s[a], f[b])} : Small(v) /\ Put("ssum", <<a, b>>, c, v)
  \/ op = "smul" /\ c # b /\ \E v \in {MulT(s[a], f[b])} : Small(v) /\ Put("smul", <<a, b>>, c, v)
  \/ op = "mulst" /\ c # b /\ \E v \in {TrT(MulT(f[b], s[a]))} : Small(v) /\ Put("mulst", <<b, a>>, c, v)
  \/ op = "sbch" /\ c # b /\ Tiny(s[a]) /\ Tiny(f[b]) /\ \E v \in {BchT(s[a], f[b])} : Put("sbch", <<a, b>>, c, v)
Unary == Go /\ \E a \in {Rnd(FR)} : \E c \in {Rnd(FR)} : \E op \in {Rnd({"scale", "skew", "inv", "copy", "zero"})} : \E k \in {Rnd({<<1, 2>>, <<-1, 1>>, <<3, 1>>, <<-2, 3>>})} :
  \/ op = "scale" /\ \E v \in {ScaleT(k[1], k[2], f[a])} : Small(v) /\ Put("scale", <<k, a>>, c, v)
  \/ op = "skew" /\ c # a /\ \E v \in {SkewT(f[a])} : Small(v) /\ Put("skew", <<a>>, c, v)
  \/ op = "inv" /\ c # a /\ IntDet(f[a].m) > 0 /\ Size(f[a]) <= 60 /\ \E v \in {InvT(f[a])} : Small(v) /\ Put("inv", <<a, DetT(f[a])>>, c, v)
  \/ op = "copy" /\ Put("copy", <<a>>, c, f[a])
  \/ op = "zero" /\ Put("zero", <<>>, c, Zero)
ToSym == Go /\ \E a \in {Rnd(FR)} : \E b \in {Rnd(SR)} : \E c \in {Rnd(SR)} : \E op \in {Rnd({"square_tf", "square_ft", "sym", "rot", "unrot", "copys"})} :
  \/ op = "square_tf" /\ \E v \in {MulT(TrT(f[a]), f[a])} : Small(v) /\ PutS(op, <<a>>, c, v)
  \/ op = "square_ft" /\ \E v \in {MulT(f[a], TrT(f[a]))} : Small(v) /\ PutS(op, <<a>>, c, v)
  \/ op = "sym" /\ \E v \in {SymT(f[a])} : Small(v) /\ PutS(op, <<a>>, c, v)
  \/ op = "rot" /\ b # c /\ Size(s[b]) <= 60 /\ Size(f[a]) <= 60 /\ \E v \in {MulT(MulT(TrT(f[a]), s[b]), f[a])} : Small(v) /\ PutS(op, <<b, a>>, c, v)
  \/ op = "unrot" /\ b # c /\ Size(s[b]) <= 60 /\ Size(f[a]) <= 60 /\ \E v \in {MulT(MulT(f[a], s[b]), TrT(f[a]))} : Small(v) /\ PutS(op, <<b, a>>, c, v)
  \/ op = "copys" /\ PutS(op, <<b>>, c, s[b])
Scalars == Go /\ \E a \in {Rnd(FR)} : \E b \in {Rnd(SR)} : \E op \in {Rnd({"det", "normf", "norms", "cross", "sign"})} : \E u \in {RndMat(-9..9)} :
  \/ op = "det" /\ Size(f[a]) <= 400 /\ Say("det", <<a>>, DetT(f[a]))
  \/ op = "normf" /\ Say("normf", <<a>>, [n |-> Fold(f[a].m, LAMBDA x, y : x + y * y, 0), d |-> f[a].d])
  \/ op = "norms" /\ Say("norms", <<b>>, [n |-> Fold(s[b].m, LAMBDA x, y : x + y * y, 0), d |-> s[b].d])
  \/ op = "cross" /\ Say("cross", <<u[1], u[2]>>, <<u[1][2] * u[2][3] - u[1][3] * u[2][2], u[1][3] * u[2][1] - u[1][1] * u[2][3], u[1][1] * u[2][2] - u[1][2] * u[2][1]>>)
  \/ op = "sign" /\ Say("sign", <<u[1][1], u[1][2], u[1][3]>>, [sign |-> IF u[1][2] < 0 THEN -u[1][1] ELSE u[1][1], min |-> IF u[1][1] < u[1][2] THEN u[1][1] ELSE u[1][2],
                                                                 ite |-> IF u[1][3] > 0 THEN u[1][1] ELSE u[1][2], itz |-> IF u[1][3] > 0 THEN u[1][1] ELSE 0])
\* F = V R with V = Q diag(l) Q': the polar decomposition of F, and the logarithm of V
Polar == Go /\ \E q \in {Quat(1)} : \E p \in {Quat(2)} : \E l \in {TLCEval([i \in I3 |-> Rnd(Pos)])} : \E d \in {Rnd({1, 2, 3})} : IsQuat(q) /\ IsQuat(p) /\ Sq(q) <= 16 /\ Sq(p) <= 16
  /\ \E Q \in {Rot(q)} : \E R \in {Rot(p)} : \E V \in {Spectral(Q, l, d)} : \E F \in {MulT(V, R)} : Size(F) <= 200000
  /\ Say("polar", [F |-> F, Q |-> Q, l |-> l, d |-> d], [V |-> V, R |-> R])
\* the logarithm of a rotation: an axis and the cosine of half the angle; sc scales the scalar part (a small turn) or,
\* where negative, the axis (close to half a turn) by 2^|sc|, beyond the integers of this specification
LogRot == Go /\ \E q \in {Quat(1)} : \E sc \in {Rnd({0, 3, 6, 12, 18, 22}) - Rnd({0, 0, 22})} : IsQuat(q)
  /\ Say("logrot", [R |-> Rot(q), sc |-> IF q[1] = 0 THEN 0 ELSE sc], [w |-> q[1], v |-> <<q[2], q[3], q[4]>>, n |-> Sq(q)])
\* A x = b, several right-hand sides for one decomposition
RECURSIVE SumTo(_, _)
SumTo(g(_), k) == IF k = 0 THEN 0 ELSE g(k) + SumTo(g, k - 1)
P == 10007
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1 ELSE LET h == TLCEval(Pow(a, e \div 2)) IN IF e % 2 = 0 THEN (h * h) % P ELSE (((h * h) % P) * a) % P
\* rank modulo a prime: a matrix regular modulo P is regular
RECURSIVE Regular(_)
Regular(A) == LET n == Len(A) IN n = 0 \/ LET piv == {i \in 1..n : A[i][1] # 0} IN piv # {} /\
  LET k == CHOOSE i \in piv : TRUE  u == TLCEval(Pow(A[k][1], P - 2))
      rest == TLCEval([i \in 1..(n - 1) |-> LET a == IF i < k THEN A[i] ELSE A[i + 1] c == (a[1] * u) % P IN [j \in 1..(n - 1) |-> (a[j + 1] - ((c * A[k][j + 1]) % P)) % P]])
  IN Regular(rest)
Apply(A, x) == TLCEval([i \in 1..Len(A) |-> SumTo(LAMBDA j : A[i][j] * x[j], Len(A))])
Solve == Go /\ \E n \in {Rnd(1..6)} : \E k \in {Rnd(1..3)} : \E A \in {TLCEval([i \in 1..n |-> [j \in 1..n |-> Rnd(IF k = 1 THEN -9..9 ELSE IF k = 2 THEN {-1, 0, 0, 0, 1, 2} ELSE {0, 0, 0, 5, -7, 100})]])} :
  Regular([i \in 1..n |-> [j \in 1..n |-> A[i][j] % P]]) /\
  \E xs \in {TLCEval([q \in 1..Rnd(1..3) |-> [i \in 1..n |-> Rnd(-9..9)]])} :
  Say("solve", [A |-> A, b |-> [q \in 1..Len(xs) |-> Apply(A, xs[q])]], xs)
Stop == act = "run" /\ Len(log) = MAXOPS /\ act' = "done" /\ UNCHANGED <<f, s, log>>
Next == LoadF \/ LoadRot \/ LoadS \/ Binary \/ Mixed \/ Unary \/ ToSym \/ Scalars \/ Polar \/ LogRot \/ Solve \/ Stop
Spec == Init /\ [][Next]_vars

Sound == act = "run" /\ Len(log) > 0 => LET e == log[Len(log)] IN
  /\ "sym" \in DOMAIN e => e.sym.m = Tr(e.sym.m)
  /\ e.op = "inv" => MulT(f[e.args[1]], e.full) = T(One)
  /\ e.op = "skew" => AddT(e.full, SymT(f[e.args[1]])) = f[e.args[1]]
  /\ e.op = "logrot" => LET R == e.args.R IN MulT(R, TrT(R)) = T(One) /\ IntDet(R.m) = R.d * R.d * R.d
       /\ \A i \in I3 : SumTo(LAMBDA j : R.m[i][j] * e.val.v[j], 3) = R.d * e.val.v[i]              \* the axis stays
       /\ (R.m[1][1] + R.m[2][2] + R.m[3][3] + R.d) * e.val.n = 4 * e.val.w * e.val.w * R.d           \* 1 + trace = 4 cos^2
  /\ e.op = "polar" => e.val.V.m = Tr(e.val.V.m) /\ e.val.V.m[1][1] > 0
       /\ MulT(e.val.R, TrT(e.val.R)) = T(One)
       /\ (e.val.V.m[1][1] + e.val.V.m[2][2] + e.val.V.m[3][3]) * e.args.d = (e.args.l[1] + e.args.l[2] + e.args.l[3]) * e.val.V.d
  /\ e.op = "cross" => SumTo(LAMBDA j : e.val[j] * e.args[1][j], 3) = 0 /\ SumTo(LAMBDA j : e.val[j] * e.args[2][j], 3) = 0
  /\ e.op = "bch" /\ f[e.args[1]] = f[e.args[2]] => e.full = ScaleT(2, 1, f[e.args[1]])                \* commuting arguments add
EmitInv == act = "done" => PrintT("BEH " \o ToJson(log))
=============================================================================
