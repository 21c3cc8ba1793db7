------------------------------- MODULE Nimble -------------------------------
(***************************************************************************)
(* An explicit NimbleSM run, from the mesh and deck the user writes to the *)
(* output database, executed by one process per rank.                      *)
(*                                                                         *)
(* The mesh is a set of lattice cells with spacing h; each cell has an     *)
(* element block, an owning rank and an orientation of its node list.      *)
(* Fields live on lattice points.  Displacements are measured in a unit so *)
(* small that the force is the linear elastic force, whose coefficients on *)
(* a trilinear brick are exact: 144 K is an integer matrix (KM below).     *)
(*                                                                         *)
(* The deck-writing actions choose a scenario; the run actions follow the  *)
(* integrator on every rank; `ser' is the same run on the undivided mesh.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num

CONSTANTS DIMS,      \* set of <<nx, ny, nz>>
          HS,        \* set of spacings <<hx, hy, hz>> (integers)
          MATS,      \* set of [l |-> lambda, m |-> mu, r |-> density (mult. of 8)]
          NBLK,      \* number of element blocks
          NRANK,     \* number of ranks
          ROTS,      \* set of orientation numbers (1..24)
          VOID,      \* TRUE: cells may be absent
          NSETS,     \* number of node sets
          MAXBC, BCTYPES, VALS, SLOPES, TSLOPES,
          DTS, STEPS, FREQS, T0S,
          IPT        \* TRUE: emit displacement gradients at the integration points too

VARIABLES phase, sc, pr, ser, out
vars == <<phase, sc, pr, ser, out>>

\* ---- geometry
RankSet == 1..NRANK
Pt(d, x, y, z) == 1 + x + (d[1] + 1) * (y + (d[2] + 1) * z)
PtX(d, p) == <<(p - 1) % (d[1] + 1), ((p - 1) \div (d[1] + 1)) % (d[2] + 1),
               (p - 1) \div ((d[1] + 1) * (d[2] + 1))>>
NumPts(d) == (d[1] + 1) * (d[2] + 1) * (d[3] + 1)
NumCells(d) == d[1] * d[2] * d[3]
CellX(d, c) == <<(c - 1) % d[1], ((c - 1) \div d[1]) % d[2], (c - 1) \div (d[1] * d[2])>>
\* corners of the reference cell in Exodus order
Corner == << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>> >>
CornerPt(d, c, k) == LET o == CellX(d, c) e == Corner[k]
                     IN Pt(d, o[1] + e[1], o[2] + e[2], o[3] + e[3])
CellPts(d, c) == TLCEval([k \in 1..8 |-> CornerPt(d, c, k)])
\* the 24 rotations of the cube as renumberings of the corners
IsRot(p) == /\ \A i, j \in 1..8 : i # j => p[i] # p[j]
            /\ LET s(k) == [q \in 1..3 |-> Corner[p[k]][q]]
                   e1 == [q \in 1..3 |-> s(2)[q] - s(1)[q]]
                   e2 == [q \in 1..3 |-> s(4)[q] - s(1)[q]]
                   e3 == [q \in 1..3 |-> s(5)[q] - s(1)[q]]
                   det == e1[1] * (e2[2] * e3[3] - e2[3] * e3[2]) - e1[2] * (e2[1] * e3[3] - e2[3] * e3[1])
                          + e1[3] * (e2[1] * e3[2] - e2[2] * e3[1])
               IN /\ det = 1
                  /\ \A k \in 1..8 : \A q \in 1..3 :
                       s(k)[q] = s(1)[q] + Corner[k][1] * e1[q] + Corner[k][2] * e2[q] + Corner[k][3] * e3[q]
CornerAt(x) == CHOOSE k \in 1..8 : Corner[k] = x
\* a rotation is fixed by the images of corner 1 and the three edges from it
Frames == {f \in (1..8) \X (1..8) \X (1..8) \X (1..8) :
             LET a(i) == Corner[f[i]]
                 dist(i) == (a(1)[1] - a(i)[1])^2 + (a(1)[2] - a(i)[2])^2 + (a(1)[3] - a(i)[3])^2
             IN /\ dist(2) = 1 /\ dist(3) = 1 /\ dist(4) = 1
                /\ f[2] # f[3] /\ f[2] # f[4] /\ f[3] # f[4]}
RotOf(f) == [k \in 1..8 |->
               LET a(i) == Corner[f[i]] IN
               CornerAt([q \in 1..3 |-> a(1)[q] + Corner[k][1] * (a(2)[q] - a(1)[q])
                                         + Corner[k][2] * (a(3)[q] - a(1)[q]) + Corner[k][3] * (a(4)[q] - a(1)[q])])]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Rotations == ToSeq({p \in {RotOf(f) : f \in Frames} : IsRot(p)})
ASSUME Len(Rotations) = 24

\* ---- stiffness of a brick (x144)
Sgn(k, i) == 2 * Corner[k][i] - 1
Same(a, b, i) == IF Corner[a][i] = Corner[b][i] THEN 2 ELSE 1      \* 6 x mass in 1-D
Other(i) == CASE i = 1 -> <<2, 3>> [] i = 2 -> <<3, 1>> [] i = 3 -> <<1, 2>>
Third(i, j) == 6 - i - j
\* 144 * integral of d_i N_a * d_j N_b over a brick with edges h
G(a, b, i, j, h) ==
  IF i = j THEN LET o == Other(i) IN
       (Sgn(a, i) * Sgn(b, i) * Same(a, b, o[1]) * Same(a, b, o[2]) * 4 * h[o[1]] * h[o[2]]) \div h[i]
  ELSE Sgn(a, i) * Sgn(b, j) * Same(a, b, Third(i, j)) * 6 * h[Third(i, j)]
StiffEntry(a, b, i, j, m, h) ==
  m.l * G(a, b, i, j, h) + m.m * G(a, b, j, i, h)
  + (IF i = j THEN m.m * (G(a, b, 1, 1, h) + G(a, b, 2, 2, h) + G(a, b, 3, 3, h)) ELSE 0)
KM == TLCEval([m \in MATS |-> TLCEval([h \in HS |->
        TLCEval([r \in 1..24 |-> TLCEval([s \in 1..24 |->
           StiffEntry(((r - 1) \div 3) + 1, ((s - 1) \div 3) + 1, ((r - 1) % 3) + 1, ((s - 1) % 3) + 1, m, h)])])])])
\* spacings must keep 144 K integral
ASSUME \A h \in HS : \A i \in 1..3 : (4 * h[Other(i)[1]] * h[Other(i)[2]]) % h[i] = 0

\* laws of the stiffness: symmetric, rigid translations and rotations are free
ASSUME \A m \in MATS : \A h \in HS : LET K == KM[m][h] IN
  /\ \A r, s \in 1..24 : K[r][s] = K[s][r]
ASSUME \A m \in MATS : \A h \in HS : LET K == KM[m][h] IN
  \A r \in 1..24 : \A i \in 1..3 :
     K[r][i] + K[r][i + 3] + K[r][i + 6] + K[r][i + 9] + K[r][i + 12] + K[r][i + 15] + K[r][i + 18] + K[r][i + 21] = 0

RECURSIVE Dot(_, _, _, _)
Dot(row, U, k, acc) == IF k = 0 THEN acc ELSE Dot(row, U, k - 1, NAdd(acc, NScale(row[k], U[((k - 1) \div 3) + 1][((k - 1) % 3) + 1])))
\* 144 * force on the 8 corners of a cell
CellForce(d, c, m, h, u) ==
  LET pts == TLCEval(CellPts(d, c))
      U == TLCEval([k \in 1..8 |-> u[pts[k]]])
      K == KM[m][h]
  IN TLCEval([k \in 1..8 |-> TLCEval([i \in 1..3 |-> NNeg(Dot(K[3 * (k - 1) + i], U, 24, NZero))])])

\* ---- scenario access
Cells(s) == {c \in 1..Len(s.cells) : s.cells[c].b # 0}
CellsOf(s, r) == {c \in Cells(s) : s.cells[c].r = r}
PtsOf(s, C) == UNION {{CornerPt(s.d, c, k) : k \in 1..8} : c \in C}
MatOf(s, c) == s.mats[s.cells[c].b]
Vol(h) == h[1] * h[2] * h[3]
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
MassFrom(s, C, p) == SumSet({c \in C : p \in {CornerPt(s.d, c, k) : k \in 1..8}},
                            [c \in C |-> (MatOf(s, c).r * Vol(s.h)) \div 8])
InSet(s, k, p) ==
  LET ns == s.sets[k] x == PtX(s.d, p) IN
  CASE ns.kind = "all" -> TRUE
    [] ns.kind = "none" -> FALSE
    [] ns.kind = "plane" -> x[ns.ax] = ns.at
    [] ns.kind = "point" -> p = ns.at
Value(s, bc, p, t) == bc.c0 + bc.cx * PtX(s.d, p)[bc.ax] * s.h[bc.ax] + bc.ct * t

\* ---- the run
\* state of one process: u, v, a on its points, total and own forces
RECURSIVE InitVel(_, _, _, _)
InitVel(s, k, P, v) ==      \* initial velocity conditions in deck order
  IF k > Len(s.bcs) THEN v
  ELSE LET bc == s.bcs[k] IN
       InitVel(s, k + 1, P,
         IF bc.type = "initial_velocity" /\ bc.set # 0
         THEN TLCEval([p \in P |-> IF InSet(s, bc.set, p) THEN [v[p] EXCEPT ![bc.co] = NInt(Value(s, bc, p, 0))] ELSE v[p]])
         ELSE v)
RECURSIVE Constrain(_, _, _, _, _, _, _)
Constrain(s, k, P, u, v, t, dt) ==
  IF k > Len(s.bcs) THEN v
  ELSE LET bc == s.bcs[k] IN
       Constrain(s, k + 1, P, u,
         IF bc.set = 0 THEN v
         ELSE IF bc.type = "prescribed_velocity"
         THEN TLCEval([p \in P |-> IF InSet(s, bc.set, p) THEN [v[p] EXCEPT ![bc.co] = NInt(Value(s, bc, p, t))] ELSE v[p]])
         ELSE IF bc.type = "prescribed_displacement" /\ dt > 0
         THEN TLCEval([p \in P |-> IF InSet(s, bc.set, p)
                 THEN [v[p] EXCEPT ![bc.co] = NDiv(NSub(NInt(Value(s, bc, p, t)), u[p][bc.co]), dt)] ELSE v[p]])
         ELSE v, t, dt)

Start(s, P) ==
  LET u0 == TLCEval([p \in P |-> VZero])
      v0 == InitVel(s, 1, P, u0)
  IN [u |-> u0, v |-> Constrain(s, 1, P, u0, v0, s.t0, 0), a |-> u0, f |-> u0]

RECURSIVE AddCells(_, _, _, _)
AddCells(s, C, u, acc) ==
  IF C = {} THEN acc
  ELSE LET c == CHOOSE x \in C : TRUE
           F == CellForce(s.d, c, MatOf(s, c), s.h, u)
           pts == CellPts(s.d, c)
           at == TLCEval([k \in 1..8 |-> VAdd(acc[pts[k]], F[k])])
       IN AddCells(s, C \ {c}, u,
            [acc EXCEPT ![pts[1]] = at[1], ![pts[2]] = at[2], ![pts[3]] = at[3], ![pts[4]] = at[4],
                        ![pts[5]] = at[5], ![pts[6]] = at[6], ![pts[7]] = at[7], ![pts[8]] = at[8]])

\* everything a process does on its own between two reductions
Local(s, P, C, q, k) ==
  LET t == s.t0 + k * s.dt
      v1 == TLCEval([p \in P |-> VAdd(q.v[p], VDiv(VScale(s.dt, q.a[p]), 2))])    \* half kick
      v2 == Constrain(s, 1, P, q.u, v1, t, s.dt)
      u2 == TLCEval([p \in P |-> VAdd(q.u[p], VScale(s.dt, v2[p]))])              \* drift
      v3 == Constrain(s, 1, P, u2, v2, t, s.dt)
  IN [u |-> u2, v |-> v3, a |-> q.a, f |-> AddCells(s, C, u2, TLCEval([p \in P |-> VZero]))]
\* what it does after the reduction: f is 144 * the assembled force
Finish(s, P, q, f, M, k, isout) ==
  LET a2 == TLCEval([p \in P |-> VDiv(VDiv(f[p], 144), M[p])])
      v4 == TLCEval([p \in P |-> VAdd(q.v[p], VDiv(VScale(s.dt, a2[p]), 2))])
      t == s.t0 + k * s.dt
  IN [u |-> q.u, v |-> IF isout THEN Constrain(s, 1, P, q.u, v4, t, s.dt) ELSE v4, a |-> a2, f |-> f]

\* steps are numbered 0, 1, ... ; k = step + 1 is the number of completed steps
IsOutput(s, k) == s.freq # 0 /\ ((k - 1) % s.freq = 0 \/ k = s.steps)

\* ---- spec: deck
Rec(phaseNext, s) == phase' = phaseNext /\ sc' = s /\ UNCHANGED <<pr, ser, out>>

Init == /\ phase = "dim" /\ pr = <<>> /\ ser = <<>> /\ out = <<>>
        /\ sc = [d |-> <<>>, h |-> <<>>, mats |-> <<>>, cells |-> <<>>, sets |-> <<>>, bcs |-> <<>>,
                 dt |-> 1, steps |-> 1, freq |-> 1, t0 |-> 0]

ChooseDim == phase = "dim" /\ \E d \in DIMS : \E h \in HS : Rec("mat", [sc EXCEPT !.d = d, !.h = h])
ChooseMat == phase = "mat" /\
  IF Len(sc.mats) < NBLK THEN \E m \in MATS : Rec("mat", [sc EXCEPT !.mats = Append(@, m)])
  ELSE Rec("cell", sc)
LastCell == Len(sc.cells) = NumCells(sc.d) - 1
\* every rank owns a cell, which also makes the mesh nonempty
ChooseCell == phase = "cell" /\
  IF Len(sc.cells) < NumCells(sc.d)
  THEN \E b \in (IF VOID THEN 0 ELSE 1)..NBLK : \E r \in RankSet : \E o \in ROTS :
         /\ (b = 0 => r = 1 /\ o = CHOOSE x \in ROTS : TRUE)
         /\ LET s2 == [sc EXCEPT !.cells = Append(@, [b |-> b, r |-> r, o |-> o])]
                left == NumCells(sc.d) - Len(s2.cells)
                have == {s2.cells[c].r : c \in {x \in 1..Len(s2.cells) : s2.cells[x].b # 0}}
            IN /\ Cardinality(RankSet \ have) <= left
               /\ Rec("cell", s2)
  ELSE Rec("set", sc)
SetKinds(d) == {[kind |-> "all", ax |-> 1, at |-> 0], [kind |-> "none", ax |-> 1, at |-> 0]}
               \cup {[kind |-> "plane", ax |-> a, at |-> v] : a \in 1..3, v \in 0..1}
               \cup {[kind |-> "plane", ax |-> a, at |-> d[a]] : a \in 1..3}
               \cup {[kind |-> "point", ax |-> 1, at |-> p] : p \in 1..NumPts(d)}
ChooseSet == phase = "set" /\
  IF Len(sc.sets) < NSETS THEN \E k \in SetKinds(sc.d) : Rec("set", [sc EXCEPT !.sets = Append(@, k)])
  ELSE Rec("bc", sc)
ChooseBC == phase = "bc" /\
  \/ /\ Len(sc.bcs) < MAXBC
     /\ \E ty \in BCTYPES : \E k \in 0..NSETS : \E co \in 1..3 : \E c0 \in VALS :
          Rec("slope", [sc EXCEPT !.bcs = Append(@, [type |-> ty, set |-> k, co |-> co, c0 |-> c0,
                                                     cx |-> 0, ax |-> 1, ct |-> 0])])
  \/ Len(sc.bcs) >= (IF MAXBC > 1 THEN 1 ELSE MAXBC) /\ Rec("time", sc)
ChooseSlope == phase = "slope" /\
  \E cx \in SLOPES : \E ax \in 1..3 : \E ct \in TSLOPES :
     /\ sc.bcs[Len(sc.bcs)].type = "initial_velocity" => ct = 0
     /\ cx = 0 => ax = 1
     /\ Rec("bc", [sc EXCEPT !.bcs[Len(sc.bcs)].cx = cx, !.bcs[Len(sc.bcs)].ax = ax, !.bcs[Len(sc.bcs)].ct = ct])
ChooseTime == phase = "time" /\
  \E dt \in DTS : \E n \in STEPS : \E f \in FREQS : \E t0 \in T0S :
     Rec("start", [sc EXCEPT !.dt = dt, !.steps = n, !.freq = f, !.t0 = t0])

\* ---- spec: run
AllPts == ser.P
RPts(r) == pr[r].P
Snapshot(k, q) == [k |-> k, t |-> sc.t0 + k * sc.dt, u |-> q.u, v |-> q.v, a |-> q.a, f |-> q.f]
\* a run whose final time precedes its initial time is refused
Refuse == phase = "start" /\ sc.dt * sc.steps < 0 /\ phase' = "refused" /\ UNCHANGED <<sc, pr, ser, out>>
Begin ==
  /\ phase = "start" /\ sc.dt * sc.steps >= 0
  /\ phase' = "run"
  /\ LET P == TLCEval(PtsOf(sc, Cells(sc)))
         M == TLCEval([p \in P |-> MassFrom(sc, Cells(sc), p)]) IN
     /\ ser' = [k |-> 0, P |-> P, C |-> Cells(sc), M |-> M, q |-> Start(sc, P)]
     /\ pr' = TLCEval([r \in RankSet |->
                 LET RP == TLCEval(PtsOf(sc, CellsOf(sc, r))) IN
                 [pc |-> "local", k |-> 0, P |-> RP, C |-> CellsOf(sc, r), q |-> Start(sc, RP),
                  \* its own share of the mass, completed by a reduction
                  M |-> [p \in RP |-> SumSet(RankSet, [x \in RankSet |-> MassFrom(sc, CellsOf(sc, x), p)])]]])
  /\ out' = <<Snapshot(0, ser'.q)>>
  /\ UNCHANGED sc
StepLocal(r) ==
  /\ phase = "run" /\ pr[r].pc = "local" /\ pr[r].k < sc.steps
  /\ pr' = [pr EXCEPT ![r].pc = "wait", ![r].k = @ + 1,
                      ![r].q = Local(sc, RPts(r), pr[r].C, @, pr[r].k + 1)]
  /\ UNCHANGED <<phase, sc, ser, out>>
RECURSIVE SumRanks(_, _)
SumRanks(R, p) == IF R = {} THEN VZero
  ELSE LET r == CHOOSE x \in R : TRUE
       IN VAdd(IF p \in RPts(r) THEN pr[r].q.f[p] ELSE VZero, SumRanks(R \ {r}, p))
\* the vector reduction: everybody who shares a point gets the sum over everybody
Reduce ==
  /\ phase = "run" /\ \A r \in RankSet : pr[r].pc = "wait"
  /\ LET k == ser.k + 1
         io == IsOutput(sc, k)
         L == TLCEval(Local(sc, AllPts, ser.C, ser.q, k))
         q2 == TLCEval(Finish(sc, AllPts, L, L.f, ser.M, k, io))
     IN /\ ser' = [ser EXCEPT !.k = k, !.q = q2]
        /\ pr' = [r \in RankSet |->
             [pr[r] EXCEPT !.pc = "local",
                           !.q = Finish(sc, RPts(r), @, TLCEval([p \in RPts(r) |-> SumRanks(RankSet, p)]), pr[r].M, k, io)]]
        /\ out' = IF io THEN Append(out, Snapshot(k, q2)) ELSE out
        /\ phase' = IF k = sc.steps THEN "end" ELSE "run"
        /\ UNCHANGED sc
Stop == phase = "end" /\ phase' = "done" /\ UNCHANGED <<sc, pr, ser, out>>
StopEmpty == phase = "run" /\ sc.steps = 0 /\ phase' = "done" /\ UNCHANGED <<sc, pr, ser, out>>

Next == \/ ChooseDim \/ ChooseMat \/ ChooseCell \/ ChooseSet \/ ChooseBC \/ ChooseSlope \/ ChooseTime
        \/ Refuse \/ Begin \/ (\E r \in RankSet : StepLocal(r)) \/ Reduce \/ Stop \/ StopEmpty
Spec == Init /\ [][Next]_vars

\* ---- properties
Running == phase \in {"run", "end", "done"}
\* P09/P10: every rank holds what the undivided run holds
Agree == Running =>
  \A r \in RankSet : pr[r].k = ser.k =>
     \A p \in RPts(r) : /\ pr[r].q.u[p] = ser.q.u[p] /\ pr[r].q.v[p] = ser.q.v[p]
                        /\ pr[r].q.a[p] = ser.q.a[p] /\ pr[r].q.f[p] = ser.q.f[p]
\* P13: internal forces are self-equilibrated
RECURSIVE VSum(_, _)
VSum(P, f) == IF P = {} THEN VZero ELSE LET p == CHOOSE x \in P : TRUE IN VAdd(f[p], VSum(P \ {p}, f))
Equilibrated == Running => VSum(AllPts, ser.q.f) = VZero
\* P12: mass is conserved and positive
MassConserved == Running =>
  /\ SumSet(AllPts, ser.M) = SumSet(ser.C, [c \in ser.C |-> MatOf(sc, c).r * Vol(sc.h)])
  /\ \A p \in AllPts : ser.M[p] > 0
\* P08: momentum is conserved when nothing is prescribed
Momentum(q) == VSum(AllPts, [p \in AllPts |-> VScale(ser.M[p], q.v[p])])
Free == \A k \in 1..Len(sc.bcs) : sc.bcs[k].type = "initial_velocity" \/ sc.bcs[k].set = 0
MomentumConserved == (Running /\ Free) =>
  LET d == [i \in 1..3 |-> NSub(Momentum(ser.q)[i], Momentum([v |-> out[1].v])[i])]
  IN \A i \in 1..3 : NTiny(d[i])
\* P06: the output history is the requested one
Schedule == (phase = "done" /\ sc.steps > 0) =>
  LET ks == [i \in 1..Len(out) |-> out[i].k] IN
  /\ ks[1] = 0
  /\ \A i, j \in 1..Len(ks) : i < j => ks[i] < ks[j]
  /\ {ks[i] : i \in 1..Len(ks)} = {0} \cup (IF sc.freq = 0 THEN {}
        ELSE {sc.steps} \cup {k \in 1..sc.steps : \E j \in 0..sc.steps : k = 1 + j * sc.freq})
\* P07: the last condition on a component holds at every output
LastBC(p, co, types) ==
  LET S == {k \in 1..Len(sc.bcs) : sc.bcs[k].set # 0 /\ sc.bcs[k].co = co /\ sc.bcs[k].type \in types
                                   /\ InSet(sc, sc.bcs[k].set, p)}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Constrained == Running =>
  \A i \in 1..Len(out) : \A p \in AllPts : \A co \in 1..3 :
    LET k == LastBC(p, co, {"prescribed_velocity", "prescribed_displacement"}) IN
    (k # 0 /\ i > 1) =>
       LET bc == sc.bcs[k] val == NInt(Value(sc, bc, p, out[i].t)) IN
       IF bc.type = "prescribed_velocity" THEN out[i].v[p][co] = val
       ELSE NTiny(NSub(out[i].u[p][co], val))
\* a component nobody prescribes starts with its last initial velocity, or at rest
StartsRight == Running =>
  \A p \in AllPts : \A co \in 1..3 :
    LET kp == LastBC(p, co, {"prescribed_velocity"})
        ki == LastBC(p, co, {"initial_velocity"}) IN
    /\ out[1].u[p] = VZero
    /\ out[1].v[p][co] = IF kp # 0 THEN NInt(Value(sc, sc.bcs[kp], p, sc.t0))
                         ELSE IF ki # 0 THEN NInt(Value(sc, sc.bcs[ki], p, 0)) ELSE NZero
\* values stay far from the limits of Num (otherwise the scenario is useless)
InRange == Running => \A p \in AllPts : \A i \in 1..3 : ser.q.u[p][i][1] \in -20000..20000

\* ---- emission
\* average displacement gradient of a cell: entry (i, j) = d u_i / d x_j
GradU(s, c, u) ==
  LET pts == CellPts(s.d, c) IN
  [i \in 1..3 |-> [j \in 1..3 |->
     NDiv(Dot([k \in 1..24 |-> IF ((k - 1) % 3) + 1 = i THEN Sgn(((k - 1) \div 3) + 1, j) ELSE 0],
              [k \in 1..8 |-> u[pts[k]]], 24, NZero), 4 * s.h[j])]]
\* displacement gradient at integration point g of a cell, in the frame of the
\* rotated element: value P + Q / sqrt(3) with the pair <<P, Q>>
GradIpt(s, c, g, u) ==
  LET pts == CellPts(s.d, c)
      gp == Rotations[s.cells[c].o][g]        \* corner of the cell next to which point g lies
      U == TLCEval([k \in 1..8 |-> u[pts[k]]])
      cor(k) == ((k - 1) \div 3) + 1
      com(k) == ((k - 1) % 3) + 1
      t(a, j) == Sgn(a, Other(j)[1]) * Sgn(gp, Other(j)[1])
      w(a, j) == Sgn(a, Other(j)[2]) * Sgn(gp, Other(j)[2])
  IN [i \in 1..3 |-> [j \in 1..3 |->
       << NDiv(Dot([k \in 1..24 |-> IF com(k) = i THEN Sgn(cor(k), j) * (3 + t(cor(k), j) * w(cor(k), j)) ELSE 0],
                   U, 24, NZero), 12 * s.h[j]),
          NDiv(Dot([k \in 1..24 |-> IF com(k) = i THEN Sgn(cor(k), j) * (t(cor(k), j) + w(cor(k), j)) ELSE 0],
                   U, 24, NZero), 4 * s.h[j]) >>]]
\* critical time step squared: the least of (shortest edge)^2 density / bulk modulus,
\* as a fraction <<n, d>>
MinEdge(h) == CHOOSE x \in {h[1], h[2], h[3]} : \A i \in 1..3 : x <= h[i]
CritOf(s, c) == <<3 * MatOf(s, c).r * MinEdge(s.h)^2, 3 * MatOf(s, c).l + 2 * MatOf(s, c).m>>
CritSq(s) == LET F == {CritOf(s, c) : c \in Cells(s)}
             IN CHOOSE f \in F : \A g \in F : f[1] * g[2] <= g[1] * f[2]
\* rotated node list of a cell
ConnOf(s, c) == [k \in 1..8 |-> CornerPt(s.d, c, Rotations[s.cells[c].o][k])]
SetPts(s, k) == {p \in PtsOf(s, Cells(s)) : InSet(s, k, p)}
Emission ==
  [sc |-> sc, ok |-> TRUE, crit |-> CritSq(sc), pts |-> AllPts, M |-> [p \in AllPts |-> ser.M[p]],
   conn |-> [c \in Cells(sc) |-> ConnOf(sc, c)],
   setpts |-> [k \in 1..Len(sc.sets) |-> SetPts(sc, k)],
   out |-> [i \in 1..Len(out) |-> out[i]],
   ipt |-> IF IPT THEN [i \in 1..Len(out) |-> [c \in Cells(sc) |-> [g \in 1..8 |-> GradIpt(sc, c, g, out[i].u)]]] ELSE <<>>,
   grad |-> [i \in 1..Len(out) |-> [c \in Cells(sc) |-> GradU(sc, c, out[i].u)]]]
RefEmission ==
  [sc |-> sc, ok |-> FALSE, crit |-> CritSq(sc), pts |-> PtsOf(sc, Cells(sc)),
   M |-> [p \in PtsOf(sc, Cells(sc)) |-> MassFrom(sc, Cells(sc), p)],
   conn |-> [c \in Cells(sc) |-> ConnOf(sc, c)], setpts |-> [k \in 1..Len(sc.sets) |-> SetPts(sc, k)],
   out |-> <<>>, ipt |-> <<>>, grad |-> <<>>]
EmitInv == /\ phase = "refused" => PrintT("BEH " \o ToJson(RefEmission))
           /\ phase = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
