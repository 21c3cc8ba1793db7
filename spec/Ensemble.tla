------------------------------ MODULE Ensemble ------------------------------
(***************************************************************************)
(* A run with uncertain parameters (--use_uq): beside the nominal run of   *)
(* Nimble.tla, an ensemble of members advances on the same mesh, with the  *)
(* same masses, conditions and times.                                      *)
(*                                                                         *)
(*  - an exact member has moduli of its own, p0 + range * xi, and is the   *)
(*    run one would make with these moduli;                                *)
(*  - an approximate member is driven by a combination of the forces of    *)
(*    the nominal run and of the exact members.                            *)
(*                                                                         *)
(* The user names the uncertain parameters of materials in the deck and    *)
(* gives xi and the weights in a file; the file may be wrong.              *)
(***************************************************************************)
EXTENDS Nimble

CONSTANTS RANGES,     \* ranges of bulk moduli; those of shear moduli are three times as large
          XIS,        \* values of xi
          WEIGHTS, MAXEX, MAXAP, MAXPAR, FAULTS

VARIABLES ens,        \* what the user asked for
          mem,        \* members: exact ones, then approximate ones
          mout        \* their history, parallel to `out'
evars == <<ens, mem, mout>>
all == <<vars, evars>>

Blocks == 1..NBLK
\* material of a block: the second block may have the material of the first
MatNo(b) == IF ens.share THEN 1 ELSE b
Mats == {MatNo(b) : b \in Blocks}
NumPar == Len(ens.par)
NumEx == Len(ens.ex)
NumAp == Len(ens.ap)

\* ---- moduli of an exact member in a block: lambda = K - 2/3 G, mu = G
RECURSIVE Change(_, _, _, _, _)
Change(par, xi, k, mat, what) ==
  IF k > Len(par) THEN 0
  ELSE (IF par[k].mat = mat /\ par[k].what = what THEN par[k].range * xi[k] ELSE 0) + Change(par, xi, k + 1, mat, what)
DK(xi, mat) == Change(ens.par, xi, 1, mat, "bulk_modulus")
DG(xi, mat) == Change(ens.par, xi, 1, mat, "shear_modulus")
MemMat(xi, b) == LET m == sc.mats[b] IN
  [l |-> m.l + DK(xi, MatNo(b)) - 2 * (DG(xi, MatNo(b)) \div 3), m |-> m.m + DG(xi, MatNo(b)), r |-> m.r]
\* both moduli stay positive
Sound(xi) == \A b \in Blocks : MemMat(xi, b).m > 0 /\ 3 * MemMat(xi, b).l + 2 * MemMat(xi, b).m > 0

\* ---- forces: linear in the moduli
KL == TLCEval([h \in HS |-> TLCEval([r \in 1..24 |-> TLCEval([s \in 1..24 |->
        StiffEntry(((r - 1) \div 3) + 1, ((s - 1) \div 3) + 1, ((r - 1) % 3) + 1, ((s - 1) % 3) + 1, [l |-> 1, m |-> 0], h)])])])
KG == TLCEval([h \in HS |-> TLCEval([r \in 1..24 |-> TLCEval([s \in 1..24 |->
        StiffEntry(((r - 1) \div 3) + 1, ((s - 1) \div 3) + 1, ((r - 1) % 3) + 1, ((s - 1) % 3) + 1, [l |-> 0, m |-> 1], h)])])])
MemCellForce(d, c, m, h, u) ==
  LET pts == TLCEval(CellPts(d, c))
      U == TLCEval([k \in 1..8 |-> u[pts[k]]])
  IN TLCEval([k \in 1..8 |-> TLCEval([i \in 1..3 |->
       NNeg(NAdd(NScale(m.l, Dot(KL[h][3 * (k - 1) + i], U, 24, NZero)), NScale(m.m, Dot(KG[h][3 * (k - 1) + i], U, 24, NZero))))])])
RECURSIVE MemAdd(_, _, _, _)
MemAdd(xi, C, u, acc) ==
  IF C = {} THEN acc
  ELSE LET c == CHOOSE x \in C : TRUE
           F == MemCellForce(sc.d, c, MemMat(xi, sc.cells[c].b), sc.h, u)
           pts == CellPts(sc.d, c)
       IN MemAdd(xi, C \ {c}, u, TLCEval([p \in DOMAIN acc |->
            IF \E k \in 1..8 : pts[k] = p THEN VAdd(acc[p], F[CHOOSE k \in 1..8 : pts[k] = p]) ELSE acc[p]]))
RECURSIVE Combine(_, _, _, _)
Combine(w, fs, k, p) == IF k = 0 THEN VZero ELSE VAdd(VScale(w[k], fs[k][p]), Combine(w, fs, k - 1, p))

\* ---- one step of the members
Acc(f, p) == VDiv(VDiv(f[p], 144), ser.M[p])
Moved(q, k) ==
  LET t == sc.t0 + k * sc.dt
      P == ser.P
      v1 == TLCEval([p \in P |-> VAdd(q.v[p], VDiv(VScale(sc.dt, Acc(q.f, p)), 2))])
      v2 == Constrain(sc, 1, P, q.u, v1, t, sc.dt)
      u2 == TLCEval([p \in P |-> VAdd(q.u[p], VScale(sc.dt, v2[p]))])
  IN [u |-> u2, v |-> Constrain(sc, 1, P, u2, v2, t, sc.dt), f |-> q.f]
Kicked(q, f, k, io) ==
  LET t == sc.t0 + k * sc.dt
      v4 == TLCEval([p \in ser.P |-> VAdd(q.v[p], VDiv(VScale(sc.dt, Acc(f, p)), 2))])
  IN [u |-> q.u, v |-> IF io THEN Constrain(sc, 1, ser.P, q.u, v4, t, sc.dt) ELSE v4, f |-> f]
StepMembers(f0, k, io) ==      \* f0: the new forces of the nominal run
  LET mv == TLCEval([i \in 1..Len(mem) |-> Moved(mem[i], k)])
      zero == TLCEval([p \in ser.P |-> VZero])
      fe == TLCEval([i \in 1..NumEx |-> MemAdd(ens.ex[i], ser.C, mv[i].u, zero)])
      fs == <<f0>> \o fe
      fa == TLCEval([i \in 1..NumAp |-> TLCEval([p \in ser.P |-> Combine(ens.ap[i].w, fs, NumEx + 1, p)])])
  IN TLCEval([i \in 1..Len(mem) |-> Kicked(mv[i], IF i <= NumEx THEN fe[i] ELSE fa[i - NumEx], k, io)])

\* ---- spec
EInit == Init /\ ens = [on |-> TRUE, share |-> FALSE, par |-> <<>>, ex |-> <<>>, ap |-> <<>>, fault |-> "none", pc |-> "share"]
              /\ mem = <<>> /\ mout = <<>>
Deck == (ChooseDim \/ ChooseMat \/ ChooseCell \/ ChooseSet \/ ChooseBC \/ ChooseSlope \/ ChooseTime) /\ UNCHANGED evars
Ask(e) == phase = "start" /\ ens' = e /\ UNCHANGED <<vars, mem, mout>>
Share == phase = "start" /\ ens.pc = "share" /\ \E x \in BOOLEAN :
           (x => NBLK > 1 /\ \A b \in Blocks : sc.mats[b] = sc.mats[1]) /\ Ask([ens EXCEPT !.share = x, !.pc = "par"])
\* in the order of the materials
LastMat == IF ens.par = <<>> THEN 0 ELSE ens.par[Len(ens.par)].mat
AddPar == /\ ens.pc = "par" /\ NumPar < MAXPAR
          /\ \E m \in Mats : \E w \in {"bulk_modulus", "shear_modulus"} : \E r \in RANGES :
               /\ m >= LastMat
               /\ \A k \in 1..NumPar : ~ (ens.par[k].mat = m /\ ens.par[k].what = w)
               /\ Ask([ens EXCEPT !.par = Append(@, [mat |-> m, what |-> w, range |-> IF w = "bulk_modulus" THEN r ELSE 3 * r])])
ParDone == ens.pc = "par" /\ NumPar > 0 /\ Ask([ens EXCEPT !.pc = "ex"])
Tuples == [1..NumPar -> XIS]
AddEx == /\ ens.pc = "ex" /\ NumEx < MAXEX
         /\ \E xi \in Tuples : Sound(xi) /\ Ask([ens EXCEPT !.ex = Append(@, xi)])
ExDone == ens.pc = "ex" /\ (NumEx > 0 \/ NumPar = 1) /\ Ask([ens EXCEPT !.pc = "ap"])
AddAp == /\ ens.pc = "ap" /\ NumAp < MAXAP
         /\ \E xi \in Tuples : \E w \in [1..(NumEx + 1) -> WEIGHTS] :
              Sound(xi) /\ Ask([ens EXCEPT !.ap = Append(@, [xi |-> xi, w |-> w])])
\* what can be wrong about it, or that the run is made without it
ApDone == ens.pc = "ap" /\ \E f \in FAULTS : \E on \in BOOLEAN :
            /\ (f \in {"short row", "long row", "no row"} => NumEx > 0)
            /\ (f \in {"no colon", "short weights", "long weights", "bad weight"} => NumAp > 0)
            /\ (f = "bad sample" => NumEx + NumAp > 0)
            /\ (~ on => f = "none" /\ NumAp = 0)
            /\ Ask([ens EXCEPT !.fault = f, !.on = on, !.pc = "end"])
EBegin == /\ ens.pc = "end" /\ ens.fault = "none" /\ Begin
          /\ LET q == [u |-> ser'.q.u, v |-> ser'.q.v, f |-> ser'.q.f] IN
             mem' = [i \in 1..(IF ens.on THEN NumEx + NumAp ELSE 0) |-> q]
          /\ mout' = <<mem'>>
          /\ UNCHANGED ens
\* a wrong description is refused before the first step
ERefuse == phase = "start" /\ ens.pc = "end" /\ ens.fault # "none" /\ phase' = "refused" /\ UNCHANGED <<sc, pr, ser, out, evars>>
ELocal == (\E r \in RankSet : StepLocal(r)) /\ UNCHANGED evars
EReduce == /\ Reduce
           /\ mem' = IF mem = <<>> THEN <<>> ELSE StepMembers(ser'.q.f, ser'.k, IsOutput(sc, ser'.k))
           /\ mout' = IF IsOutput(sc, ser'.k) THEN Append(mout, mem') ELSE mout
           /\ UNCHANGED ens
EStop == (Stop \/ StopEmpty) /\ UNCHANGED evars
ENext == \/ Deck \/ Share \/ AddPar \/ ParDone \/ AddEx \/ ExDone \/ AddAp \/ ApDone
         \/ EBegin \/ ERefuse \/ ELocal \/ EReduce \/ EStop
ESpec == EInit /\ [][ENext]_all

\* ---- properties
Near(a, b) == \A p \in ser.P : \A i \in 1..3 : NTiny(NSub(a[p][i], b[p][i]))
\* a member whose moduli are the nominal ones is the nominal run
NominalMember == Running => \A i \in 1..Len(mem) :
   ((i <= NumEx /\ \A k \in 1..NumPar : ens.ex[i][k] = 0)
      \/ (i > NumEx /\ ens.ap[i - NumEx].w = [k \in 1..(NumEx + 1) |-> IF k = 1 THEN 1 ELSE 0]))
   => Near(mem[i].u, ser.q.u) /\ Near(mem[i].v, ser.q.v)
\* an approximate member that has the weight of one exact member only is that member
CopyMember == Running => \A i \in 1..NumAp : \A j \in 1..NumEx :
   (mem # <<>> /\ ens.ap[i].w = [k \in 1..(NumEx + 1) |-> IF k = j + 1 THEN 1 ELSE 0])
   => mem[NumEx + i] = mem[j]
\* forces of a member balance
MemEquilibrated == Running => \A i \in 1..Len(mem) : VSum(ser.P, mem[i].f) = VZero
\* the conditions hold for every member at every output
MemConstrained == Running =>
  \A n \in 2..Len(mout) : \A i \in 1..Len(mem) : \A p \in ser.P : \A co \in 1..3 :
    LET k == LastBC(p, co, {"prescribed_velocity", "prescribed_displacement"}) IN
    k # 0 => LET bc == sc.bcs[k] val == NInt(Value(sc, bc, p, out[n].t)) IN
             IF bc.type = "prescribed_velocity" THEN mout[n][i].v[p][co] = val
             ELSE NTiny(NSub(mout[n][i].u[p][co], val))
MemInRange == Running => \A i \in 1..Len(mem) : \A p \in ser.P : \A c \in 1..3 : mem[i].u[p][c][1] \in -20000..20000
HistoryParallel == Running => Len(mout) = Len(out)

\* ---- emission
EEmission == [Emission EXCEPT !.ok = TRUE] @@ [ens |-> ens, mout |-> mout,
               mats |-> [i \in 1..NumEx |-> [b \in Blocks |-> MemMat(ens.ex[i], b)]]]
ERefEmission == RefEmission @@ [ens |-> ens, mout |-> <<>>, mats |-> <<>>]
EEmit == /\ phase = "refused" => PrintT("BEH " \o ToJson(ERefEmission))
         /\ phase = "done" => PrintT("BEH " \o ToJson(EEmission))
=============================================================================
