------------------------------- MODULE Quasi -------------------------------
(***************************************************************************)
(* A quasistatic run: load steps that move the driven nodes at once and    *)
(* leave every other degree of freedom in equilibrium.                     *)
(*                                                                         *)
(* The mesh consists of up to MAXB separate bodies, each a brick of        *)
(* unequal layers whose interior nodes are out of place.  For three kinds  *)
(* of problem the equilibrium is known exactly and scales with the load:   *)
(*   patch   every boundary node follows an affine map,                    *)
(*   bar     pulled along an axis between sliding planes, free sides,      *)
(*   layers  two materials in series, sides kept from bulging;             *)
(* in `free' bodies only the driven degrees of freedom are known and the   *)
(* others are whatever equilibrium makes them.                             *)
(*                                                                         *)
(* Displacements are integers over the body's denominator D; time is       *)
(* counted in steps.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXB, KINDS
VARIABLES act, bod, cnd, run, pres, vel, out
vars == <<act, bod, cnd, run, pres, vel, out>>
Rnd(S) == RandomElement(S)
I3 == 1..3
Sum3(f(_)) == f(1) + f(2) + f(3)
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)

\* ---- geometry: nodes <<i, j, k>> of a body, counted from one
Nodes(b) == (0..b.n[1]) \X (0..b.n[2]) \X (0..b.n[3])
Count(b) == (b.n[1] + 1) * (b.n[2] + 1) * (b.n[3] + 1)
Id(b, p) == 1 + p[1] + (b.n[1] + 1) * (p[2] + (b.n[2] + 1) * p[3])
At(b, i) == LET q == i - 1 IN <<q % (b.n[1] + 1), (q \div (b.n[1] + 1)) % (b.n[2] + 1), q \div ((b.n[1] + 1) * (b.n[2] + 1))>>
Inside(b, p) == \A a \in I3 : p[a] > 0 /\ p[a] < b.n[a]
OnFace(b, p, a, hi) == p[a] = (IF hi THEN b.n[a] ELSE 0)
\* nodes on the interface of two layers stay on it
X(b, i) == LET p == At(b, i) IN
  TLCEval([a \in I3 |-> b.pl[a][p[a] + 1] + (IF Inside(b, p) /\ ~(b.kind = "layers" /\ a = 1 /\ p[1] = b.q) THEN b.jit[i][a] ELSE 0)])
\* node sets of a body: everything on its surface, a face, an edge (two faces)
Member(b, s, i) == LET p == At(b, i) IN
  CASE s.f = "skin" -> ~Inside(b, p)
    [] s.f = "face" -> OnFace(b, p, s.a, s.hi)
    [] s.f = "edge" -> OnFace(b, p, s.a, s.hi) /\ OnFace(b, p, 1 + (s.a % 3), s.hi)
    [] OTHER -> FALSE
MembersOf(b, s) == {i \in 1..Count(b) : Member(b, s, i)}

\* ---- loads: a profile is <<p0, p1, p2>>
Prof(p, t) == p[1] + p[2] * t + p[3] * t * t
\* scale of the load after k steps from time t0
ScaleAfter(mode, p, t0, k) == IF k = 0 THEN 0 ELSE IF mode = "v" THEN SumTo(LAMBDA j : Prof(p, t0 + j), k) ELSE Prof(p, t0 + k)

\* ---- exact solutions: numerators over D at unit scale
Grad(b, i) == IF b.kind = "layers" THEN b.G[IF At(b, i)[1] <= b.q THEN 1 ELSE 2] ELSE b.G[1]
U(b, i) == LET x == X(b, i) o == b.o IN
  IF b.kind = "layers"
  THEN LET xq == b.pl[1][b.q + 1] e1 == b.G[1][1][1] e2 == b.G[2][1][1]
       IN <<IF x[1] <= xq THEN e1 * (x[1] - o[1]) ELSE e1 * (xq - o[1]) + e2 * (x[1] - xq), 0, 0>>
  ELSE TLCEval([c \in I3 |-> b.c[c] + Sum3(LAMBDA a : b.G[1][c][a] * (x[a] - o[a]))])
Diag(a, b, c) == << <<a,0,0>>, <<0,b,0>>, <<0,0,c>> >>
Zero == Diag(0, 0, 0)
\* Poisson's ratio l / 2(l+m) as a fraction
Mats == {[l |-> 2, m |-> 1, p |-> 1, q |-> 3], [l |-> 1, m |-> 1, p |-> 1, q |-> 4], [l |-> 4, m |-> 1, p |-> 2, q |-> 5],
         [l |-> 8, m |-> 2, p |-> 2, q |-> 5], [l |-> 3, m |-> 2, p |-> 3, q |-> 10], [l |-> 6, m |-> 3, p |-> 1, q |-> 3]}
\* conditions that drive a body: [set, type, co, g, d]: value (g . X + d) / D times the profile
Affine(b, s, c) == [set |-> s, type |-> b.mode, co |-> c, g |-> b.G[1][c], d |-> b.c[c] - Sum3(LAMBDA a : b.G[1][c][a] * b.o[a]), prof |-> b.prof]
Const(b, s, c, v) == [set |-> s, type |-> b.mode, co |-> c, g |-> <<0, 0, 0>>, d |-> v, prof |-> b.prof]
Face(a, hi) == [f |-> "face", a |-> a, hi |-> hi]
Edge(a, hi) == [f |-> "edge", a |-> a, hi |-> hi]
Skin == [f |-> "skin", a |-> 1, hi |-> FALSE]
Driving(b) ==
  CASE b.kind = "patch" -> [c \in I3 |-> Affine(b, Skin, c)] \o <<Affine(b, Edge(2, TRUE), 1)>>
    [] b.kind = "bar" -> [a \in I3 |-> Affine(b, Face(a, FALSE), a)] \o <<Affine(b, Face(b.ax, TRUE), b.ax), Affine(b, Edge(b.ax, FALSE), b.ax)>>
    [] b.kind = "layers" -> <<Const(b, Face(1, FALSE), 1, 0), Const(b, Face(1, TRUE), 1, U(b, Count(b))[1])>>
                            \o [k \in 1..4 |-> Const(b, Face(2 + (k % 2), k > 2), 2 + (k % 2), 0)]
    [] OTHER -> [c \in I3 |-> Const(b, Face(1, FALSE), c, 0)] \o b.loads

\* ---- building
Planes(n, o) == LET st == TLCEval([k \in 1..n |-> Rnd({4, 5, 8})]) IN TLCEval([k \in 1..(n + 1) |-> o + SumTo(LAMBDA j : st[j], k - 1)])
Init == act = "build" /\ bod = <<>> /\ cnd = <<>> /\ run = [n |-> 0] /\ pres = <<>> /\ vel = <<>> /\ out = <<>>
Begin == run.n = 0 /\ act = "build"
  /\ \E r \in {[n |-> Rnd(1..3), t0 |-> Rnd({0, 0, 1, 2}), freq |-> Rnd(1..3), k |-> 0]} : run' = r
  /\ UNCHANGED <<act, bod, cnd, pres, vel, out>>
Profiles(mode) == IF mode = "v" THEN {<<1, 0, 0>>, <<1, 1, 0>>, <<2, 0, 0>>} ELSE {<<0, 1, 0>>, <<0, 2, 0>>, <<0, 1, 1>>}
Sh(S) == [c \in I3 |-> [a \in I3 |-> Rnd(S)]]
Add == run.n > 0 /\ act = "build" /\ Len(bod) < MAXB
  /\ \E kind \in {Rnd(KINDS)} : \E mode \in {Rnd({"d", "d", "v"})} : \E prof \in {Rnd(Profiles(mode))} :
     \E n \in {TLCEval([a \in I3 |-> IF kind = "layers" /\ a = 1 THEN Rnd(2..3) ELSE Rnd({1, 2, 2})])} :
     \E m \in {TLCEval([k \in 1..2 |-> Rnd(Mats)])} :
     \E sgn \in {Rnd({-1, 1})} : \E ax \in {Rnd(I3)} :
     \E S \in {ScaleAfter(mode, prof, run.t0, run.n)} :
     \E o \in {TLCEval([a \in I3 |-> 100 * Len(bod) + Rnd({-9, 0, 7})])} :
     \E pl \in {TLCEval([a \in I3 |-> Planes(n[a], o[a])])} :
     \E jit \in {TLCEval([i \in 1..((n[1] + 1) * (n[2] + 1) * (n[3] + 1)) |-> [a \in I3 |-> Rnd(-1..1)]])} :
     \E G \in {TLCEval(CASE kind = "patch" -> << Sh(-2..2) >>
                 [] kind = "bar" -> LET e == sgn * m[1].q w == -sgn * m[1].p IN << Diag(IF ax = 1 THEN e ELSE w, IF ax = 2 THEN e ELSE w, IF ax = 3 THEN e ELSE w) >>
                 [] kind = "layers" -> << Diag(sgn * (m[2].l + 2 * m[2].m), 0, 0), Diag(sgn * (m[1].l + 2 * m[1].m), 0, 0) >>
                 [] OTHER -> << Zero >>)} :
     \E D \in {10 * S * (CASE kind = "bar" -> m[1].q [] kind = "layers" -> Max(m[1].l + 2 * m[1].m, m[2].l + 2 * m[2].m) [] kind = "patch" -> 4 [] OTHER -> 1)} :
     \E nl \in {Rnd(1..3)} :
     \E loads \in {IF kind # "free" THEN <<>> ELSE
          TLCEval([k \in 1..(2 + nl) |-> LET md == Rnd({"d", "d", "v"}) IN
             [set |-> IF k <= 3 THEN Face(1, TRUE) ELSE Rnd({Face(2, TRUE), Face(3, FALSE), Edge(1, TRUE), Edge(3, TRUE)}), type |-> md, co |-> IF k <= 3 THEN k ELSE Rnd(I3),
              g |-> IF k = 2 THEN <<0, 0, Rnd(-1..1)>> ELSE <<0, 0, 0>>, d |-> Rnd(-5..5), prof |-> IF md = "v" THEN <<1, 0, 0>> ELSE Rnd({<<0, 1, 0>>, <<1, 1, 0>>})]])} :
     bod' = Append(bod, [kind |-> kind, n |-> n, pl |-> pl, o |-> o, jit |-> jit, m |-> m, G |-> G, q |-> IF kind = "layers" THEN 1 + Rnd(1..(n[1] - 1)) - 1 ELSE 0,
                         c |-> IF kind = "patch" THEN Sh(-2..2)[1] ELSE <<0, 0, 0>>, ax |-> ax, mode |-> mode, prof |-> prof, D |-> D, S |-> S, loads |-> loads,
                         model |-> IF kind \in {"patch", "free"} THEN Rnd({"elastic", "neohookean"}) ELSE "elastic"])
  /\ UNCHANGED <<act, cnd, run, pres, vel, out>>
\* the conditions of the bodies in a row, with others that do nothing
Load ==
  /\ act = "build" /\ Len(bod) > 0
  /\ LET all == IF Len(bod) = 1 THEN [k \in 1..Len(Driving(bod[1])) |-> [b |-> 1, x |-> Driving(bod[1])[k]]]
                ELSE [k \in 1..(Len(Driving(bod[1])) + Len(Driving(bod[2]))) |->
                        IF k <= Len(Driving(bod[1])) THEN [b |-> 1, x |-> Driving(bod[1])[k]] ELSE [b |-> 2, x |-> Driving(bod[2])[k - Len(Driving(bod[1]))]]]
     IN \E z \in {Rnd(0..Len(all))} : \E ty \in {Rnd({"initial", "unknown", "none", "empty"})} :
          cnd' = IF ty = "none" THEN all
                 ELSE SubSeq(all, 1, z) \o <<[b |-> 1, x |-> [set |-> IF ty = "initial" THEN Face(1, TRUE) ELSE [f |-> ty, a |-> 1, hi |-> FALSE],
                                                              type |-> IF ty = "initial" THEN "i" ELSE "d", co |-> 1, g |-> <<0, 0, 0>>, d |-> 5, prof |-> <<0, 1, 0>>]]>>
                      \o SubSeq(all, z + 1, Len(all))
  /\ act' = "start" /\ UNCHANGED <<bod, run, pres, vel, out>>

\* ---- running.  pres[b][c][i]: displacement of a driven degree of freedom
Driven(b, c, i) == \E k \in 1..Len(cnd) : cnd[k].b = b /\ cnd[k].x.co = c /\ cnd[k].x.type # "i" /\ Member(bod[b], cnd[k].x.set, i)
\* dis, vel of the driven degree of freedom after the conditions, in order; dt is 0 or 1
RECURSIVE Applied(_, _, _, _, _, _, _, _)
Applied(ks, b, c, i, u0, t, dt, acc) ==
  IF ks = <<>> THEN acc
  ELSE LET x == cnd[Head(ks)].x
           v == Sum3(LAMBDA a : x.g[a] * X(bod[b], i)[a]) + x.d
           w == v * Prof(x.prof, t)
           hit == cnd[Head(ks)].b = b /\ x.co = c /\ Member(bod[b], x.set, i)
       IN Applied(Tail(ks), b, c, i, u0, t, dt,
            IF ~hit \/ x.type = "i" THEN acc
            ELSE IF x.type = "v" THEN [u |-> u0 + w * dt, v |-> w]
            ELSE IF dt = 0 THEN acc ELSE [u |-> w, v |-> w - u0])
Order == [k \in 1..Len(cnd) |-> k]
Move(t, dt) == TLCEval([b \in 1..Len(bod) |-> [c \in I3 |-> [i \in 1..Count(bod[b]) |->
                  Applied(Order, b, c, i, pres[b][c][i], t, dt, [u |-> pres[b][c][i], v |-> vel[b][c][i]])]]])
Only(m, f) == TLCEval([b \in 1..Len(bod) |-> [c \in I3 |-> [i \in 1..Count(bod[b]) |-> m[b][c][i][f]]]])
Rest == [b \in 1..Len(bod) |-> [c \in I3 |-> [i \in 1..Count(bod[b]) |-> 0]]]
Record(k, p, v) == [k |-> k, t |-> run.t0 + k, u |-> p, v |-> v, s |-> [b \in 1..Len(bod) |-> ScaleAfter(bod[b].mode, bod[b].prof, run.t0, k)]]
Rested == act = "start" /\ act' = "zero" /\ pres' = Rest /\ vel' = Rest /\ UNCHANGED <<bod, cnd, run, out>>
Start == act = "zero" /\ \E m \in {Move(run.t0, 0)} :
     pres' = Only(m, "u") /\ vel' = Only(m, "v") /\ out' = <<Record(0, Only(m, "u"), Only(m, "v"))>> /\ act' = "run" /\ UNCHANGED <<bod, cnd, run>>
Due(k) == (k - 1) % run.freq = 0 \/ k = run.n
Step == act = "run" /\ run.k < run.n /\ LET k == run.k + 1 IN \E m \in {Move(run.t0 + k, 1)} :
     /\ pres' = Only(m, "u") /\ vel' = Only(m, "v") /\ run' = [run EXCEPT !.k = k]
     /\ out' = IF Due(k) THEN Append(out, Record(k, Only(m, "u"), Only(m, "v"))) ELSE out
     /\ UNCHANGED <<act, bod, cnd>>
Finish == act = "run" /\ run.k = run.n /\ act' = "done" /\ UNCHANGED <<bod, cnd, run, pres, vel, out>>
Next == Begin \/ Add \/ Load \/ Rested \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what must hold of the specification itself
Exact(b) == b.kind # "free"
\* stress over D, at unit scale
Sigma(b, k) == LET m == IF b.kind = "layers" THEN b.m[k] ELSE b.m[1] g == b.G[k] tr == g[1][1] + g[2][2] + g[3][3]
               IN [i \in I3 |-> [j \in I3 |-> m.m * (g[i][j] + g[j][i]) + (IF i = j THEN m.l * tr ELSE 0)]]
\* sides without conditions carry no traction, and the layers pull equally hard
Balanced == \A k \in 1..Len(bod) : LET b == bod[k] IN
  /\ b.kind = "bar" => \A i, j \in I3 : (i # b.ax \/ j # b.ax) => Sigma(b, 1)[i][j] = 0
  /\ b.kind = "layers" => Sigma(b, 1)[1][1] = Sigma(b, 2)[1][1] /\ \A r \in 1..2 : \A i, j \in I3 : i # j => Sigma(b, r)[i][j] = 0
Running == act \in {"run", "done"}
\* the conditions put every driven node on the exact solution
OnSolution == (Running /\ run.k > 0) => \A k \in 1..Len(bod) : LET b == bod[k] IN Exact(b) =>
  \A i \in 1..Count(b) : LET u == U(b, i) IN \A c \in I3 : Driven(k, c, i) => pres[k][c][i] = u[c] * ScaleAfter(b.mode, b.prof, run.t0, run.k)
\* a rigid motion is excluded: at least three nodes of every body are driven in every direction that matters
Held == act = "done" => \A k \in 1..Len(bod) : \A c \in I3 : \E i \in 1..Count(bod[k]) : Driven(k, c, i)
Outputs == act = "done" => Len(out) >= 2 /\ out[1].k = 0 /\ out[Len(out)].k = run.n /\ \A j \in 2..Len(out) : out[j].k > out[j - 1].k

Emission == [run |-> run, bodies |-> [k \in 1..Len(bod) |-> LET b == bod[k] IN
               [kind |-> b.kind, n |-> b.n, D |-> b.D, model |-> b.model, m |-> [r \in 1..2 |-> <<b.m[r].l, b.m[r].m>>], q |-> b.q,
                X |-> [i \in 1..Count(b) |-> X(b, i)], U |-> [i \in 1..Count(b) |-> U(b, i)], G |-> b.G,
                sig |-> [r \in 1..Len(b.G) |-> Sigma(b, r)],
                driven |-> [c \in I3 |-> [i \in 1..Count(b) |-> Driven(k, c, i)]]]],
             conds |-> [k \in 1..Len(cnd) |-> [b |-> cnd[k].b, x |-> cnd[k].x, nodes |-> MembersOf(bod[cnd[k].b], cnd[k].x.set)]],
             out |-> out]
EmitInv == act = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
