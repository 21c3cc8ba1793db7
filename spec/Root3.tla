------------------------------- MODULE Root3 --------------------------------
(* Numbers a + b*sqrt(3), as pairs <<a, b>> of integers: the coordinates of  *)
(* the integration points of a trilinear hexahedron live here, so that       *)
(* everything up to a final division is exact.  3x3 matrices over them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I3 == 1..3
Z == <<0, 0>>
N(n) == <<n, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Mul(x, y) == <<x[1] * y[1] + 3 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Times(k, x) == <<k * x[1], k * x[2]>>
Sum3(f(_)) == LET t == <<f(1), f(2), f(3)>> IN <<t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2]>>
Sum6(f(_)) == LET t == <<f(1), f(2), f(3), f(4), f(5), f(6)>> IN
  <<t[1][1] + t[2][1] + t[3][1] + t[4][1] + t[5][1] + t[6][1], t[1][2] + t[2][2] + t[3][2] + t[4][2] + t[5][2] + t[6][2]>>
Sum8(f(_)) == LET t == <<f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8)>> IN
  <<t[1][1] + t[2][1] + t[3][1] + t[4][1] + t[5][1] + t[6][1] + t[7][1] + t[8][1],
    t[1][2] + t[2][2] + t[3][2] + t[4][2] + t[5][2] + t[6][2] + t[7][2] + t[8][2]>>
\* sign: a + b*sqrt(3) > 0.  2 + sqrt(3) is a unit: multiplying by it keeps the sign and shrinks the conjugate.
RECURSIVE Positive(_)
Positive(x) == IF x = Z THEN FALSE ELSE IF x[1] >= 0 /\ x[2] >= 0 THEN TRUE ELSE IF x[1] <= 0 /\ x[2] <= 0 THEN FALSE
               ELSE Positive(<<2 * x[1] + 3 * x[2], x[1] + 2 * x[2]>>)
Nx(i) == (i % 3) + 1
\* cofactors: Cof(m)[i][j] is the derivative of the determinant by m[i][j]
Cof(m) == [i \in I3 |-> [j \in I3 |->
  Sub(Mul(m[Nx(i)][Nx(j)], m[Nx(Nx(i))][Nx(Nx(j))]), Mul(m[Nx(i)][Nx(Nx(j))], m[Nx(Nx(i))][Nx(j)]))]]
Det(m) == LET c == Cof(m) IN Sum3(LAMBDA j : Mul(m[1][j], c[1][j]))
=============================================================================
