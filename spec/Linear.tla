------------------------------- MODULE Linear -------------------------------
(* Linear systems for the conjugate-gradient solver, with what may be said   *)
(* about every answer.                                                       *)
(*                                                                           *)
(* A = B'B + D with integer entries is symmetric and positive definite, and  *)
(* the right-hand side is A times an integer vector.  Grade is the least     *)
(* number of steps in which a Krylov method can possibly be done - the       *)
(* dimension of the span of z, Kz, KKz, ... with K = diag(A)^-1 A - computed *)
(* modulo a prime, so that it is a lower bound.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXN, MAXLIST
VARIABLES act, sys
vars == <<act, sys>>
Rnd(S) == RandomElement(S)
P == 10007                              \* products stay below 2^31
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Apply(A, x) == LET n == Len(A) IN TLCEval([i \in 1..n |-> SumTo(LAMBDA j : A[i][j] * x[j], n)])
Vec(n, S) == TLCEval([i \in 1..n |-> Rnd(S)])

\* arithmetic modulo P
Mod(a) == a % P                         \* never negative in TLA+
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1 ELSE LET h == TLCEval(Pow(a, e \div 2)) IN IF e % 2 = 0 THEN (h * h) % P ELSE (((h * h) % P) * a) % P
Inv(a) == Pow(Mod(a), P - 2)
RECURSIVE Lead(_, _)
Lead(v, i) == IF i > Len(v) THEN 0 ELSE IF v[i] # 0 THEN i ELSE Lead(v, i + 1)
\* reduce v by the rows of a basis, each with leading entry 1
RECURSIVE Reduce(_, _)
Reduce(v, basis) == IF basis = <<>> THEN v ELSE LET w == Head(basis) l == Lead(w, 1) c == v[l] IN
  Reduce(TLCEval([i \in 1..Len(v) |-> Mod(v[i] - c * w[i])]), Tail(basis))
RECURSIVE Grow(_, _, _)
Grow(A, v, basis) ==
  LET r == Reduce(v, basis) l == Lead(r, 1) IN
  IF l = 0 THEN Len(basis)
  ELSE LET u == TLCEval(Inv(r[l])) w == TLCEval([i \in 1..Len(v) |-> (r[i] * u) % P])
           n == Len(v)
           k == TLCEval([i \in 1..n |-> (Mod(SumTo(LAMBDA j : Mod(A[i][j] * v[j]), n)) * Inv(A[i][i])) % P])
       IN Grow(A, k, Append(basis, w))
Grade(A, r0) == Grow(A, TLCEval([i \in 1..Len(r0) |-> (Mod(r0[i]) * Inv(A[i][i])) % P]), <<>>)

\* kinds of matrices, of random ingredients w
Gram(n, w) == [i \in 1..n |-> [j \in 1..n |-> SumTo(LAMBDA q : w.B[q][i] * w.B[q][j], w.k) + (IF i = j THEN w.D[i] ELSE 0)]]
Chain(n, w) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN w.s[i] + w.s[i + 1] ELSE IF j = i + 1 THEN -w.s[j] ELSE IF i = j + 1 THEN -w.s[i] ELSE 0]]
Diagonal(n, w) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN w.s[i] ELSE 0]]
Ones(n, w) == [i \in 1..n |-> [j \in 1..n |-> 1 + (IF i = j THEN w.s[1] ELSE 0)]]
Negated(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> -A[i][j]]]
Pierced(A, k) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = k /\ j = k THEN 0 ELSE A[i][j]]]
Mat(n, kind, w) == CASE kind = "gram" -> Gram(n, w) [] kind = "neg" -> Negated(Gram(n, w)) [] kind = "hole" -> Pierced(Gram(n, w), w.h)
                     [] kind = "chain" -> Chain(n, w) [] kind = "diag" -> Diagonal(n, w) [] OTHER -> Ones(n, w)
Row(n, S) == [i \in 1..n |-> Rnd(S)]

Init == act = "list" /\ sys = <<>>
Add == act = "list" /\ Len(sys) < MAXLIST
  /\ \E n \in {Rnd(1..MAXN)} : \E kind \in {Rnd({"gram", "chain", "diag", "ones", "neg", "hole"} \cup {"gram"})} :
     \E w \in {TLCEval([k |-> Rnd(1..(n + 1)), B |-> [q \in 1..(n + 1) |-> Row(n, {-2, -1, 0, 3})], D |-> Row(n, {1, 2, 5, 20}), s |-> Row(n + 1, 1..9), h |-> Rnd(1..n)])} :
     \E A \in {TLCEval(Mat(n, kind, w))} :
     \E u \in {TLCEval([x |-> Row(n, -9..9), z |-> Rnd(1..3), y |-> Row(n, -20..20), g |-> Rnd({1, 1, 2, 3})])} :
     \E xs \in {IF u.z = 1 THEN u.x ELSE IF u.z = 2 THEN TLCEval([i \in 1..n |-> IF u.x[i] > 5 THEN 1 ELSE 0]) ELSE [i \in 1..n |-> 0]} :
     \E x0 \in {IF u.g = 1 THEN [i \in 1..n |-> 0] ELSE IF u.g = 2 THEN xs ELSE u.y} :
     \E b \in {Apply(A, xs)} :
     \E r0 \in {Apply(A, [i \in 1..n |-> xs[i] - x0[i]])} : LET spd == kind \notin {"neg", "hole"} IN
     \E gr \in {IF spd THEN Grade(A, r0) ELSE 0} :
     \E tl \in {Rnd({-16, -8, -20, -4, -28})} : \E lim \in {Rnd({0, 1, 2, n, gr, gr + 1, 3 * n + 10, 1000} \cup (IF gr > 0 THEN {gr - 1} ELSE {}))} :
       sys' = Append(sys, [A |-> A, x |-> xs, x0 |-> x0, b |-> b, r0 |-> r0, spd |-> spd, grade |-> gr, limit |-> lim,
                           tol |-> tl])
  /\ UNCHANGED act
Stop == act = "list" /\ Len(sys) > 0 /\ act' = "done" /\ UNCHANGED sys
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars

Done == act = "done"
SymPos == Done => \A k \in 1..Len(sys) : LET s == sys[k] n == Len(s.A) IN
  /\ \A i, j \in 1..n : s.A[i][j] = s.A[j][i]
  /\ s.spd => \A i \in 1..n : s.A[i][i] > 0
  /\ (s.spd /\ \E i \in 1..n : s.r0[i] # 0) => SumTo(LAMBDA i : s.r0[i] * Apply(s.A, s.r0)[i], n) > 0
Consistent == Done => \A k \in 1..Len(sys) : LET s == sys[k] IN Apply(s.A, s.x) = s.b
GradeBound == Done => \A k \in 1..Len(sys) : LET s == sys[k] IN s.grade <= Len(s.A) /\ (s.spd => (s.grade = 0 <=> \A i \in 1..Len(s.r0) : s.r0[i] = 0))
EmitInv == Done => PrintT("BEH " \o ToJson(sys))
=============================================================================
