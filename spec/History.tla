------------------------------- MODULE History -------------------------------
(* The memory of a material through a run.                                   *)
(*                                                                           *)
(* A bar of cells, all of one column alike, stretched by given amounts in    *)
(* every step, is made of materials that remember: their new stress and      *)
(* their new state are functions of the old stress, the old deformation, the *)
(* old state and the new deformation.  A load step advances this memory      *)
(* exactly once, whatever number of times the forces are evaluated within it *)
(* (the quasistatic scheme evaluates them for every trial displacement), and *)
(* what an evaluation sees as old is what the step before ended with.        *)
(*                                                                           *)
(* The two back ends keep different states: "host" one to three numbers per  *)
(* point, which begin at values the material gives; "device" a number, a     *)
(* vector, a symmetric and a full tensor, which begin at zero.               *)
(*                                                                           *)
(* All quantities are integers: strains and states in units of q, stresses   *)
(* in units of P q, where q and P belong to the rendering of the run.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES act, c, k, mem, out
vars == <<act, c, k, mem, out>>

Rnd(S) == RandomElement(S)

\* the deformation of a column: stretched along x by g
F(g) == <<g, 0, 0, 0, 0, 0, 0, 0, 0>>                   \* less the identity
Elastic(b, g) == LET A == b.K + (4 * b.mu) \div 3 B == b.K - (2 * b.mu) \div 3 IN <<A * g, B * g, B * g, 0, 0, 0>>
Cyc(s, i) == s[IF i = 1 THEN Len(s) ELSE i - 1]

\* what is remembered of a column: deformation, stress, state
NewStress(b, m, g) == LET e == Elastic(b, g) IN
  IF b.kind = "elastic" THEN e
  ELSE <<e[1] + m.S[1], e[2] + m.S[1], e[3] + 3 * b.mu * m.g, m.S[4] + b.K * g, m.S[4] + m.S[2], 2 * m.S[6] + b.mu * g>>
NewState(be, b, m, g) ==
  IF b.kind = "elastic" THEN [h |-> <<>>, sc |-> 0, v |-> <<>>, sym |-> <<>>, full |-> <<>>]
  ELSE IF be = "host"
  THEN [m.st EXCEPT !.h = [i \in 1..b.m |-> IF i = 1 THEN m.st.h[1] + g ELSE IF i = 2 THEN m.st.h[2] + m.st.h[1] ELSE m.g]]
  ELSE [h |-> <<>>, sc |-> m.st.sc + g,
        v |-> <<m.st.v[3] + m.st.sc, m.st.v[1] + m.g, m.st.v[2] + g>>,
        sym |-> [i \in 1..6 |-> Cyc(m.st.sym, i) + m.S[i]],
        full |-> [i \in 1..9 |-> Cyc(m.st.full, i) + F(m.g)[i]]]
Fresh(be, b) == [g |-> 0, S |-> <<0, 0, 0, 0, 0, 0>>,
                 st |-> IF b.kind = "elastic" THEN [h |-> <<>>, sc |-> 0, v |-> <<>>, sym |-> <<>>, full |-> <<>>]
                        ELSE [h |-> IF be = "host" THEN [i \in 1..b.m |-> i * b.a0] ELSE <<>>,
                              sc |-> 0, v |-> <<0, 0, 0>>, sym |-> [i \in 1..6 |-> 0], full |-> [i \in 1..9 |-> 0]]]

Cols == 1..c.nx
Blk(j) == c.blocks[c.of[j]]
Strain(j) == (c.d[j + 1] - c.d[j]) * k                  \* after k steps

-----------------------------------------------------------------------------
Init == act = "start" /\ c = <<>> /\ k = 0 /\ mem = <<>> /\ out = <<>>

Make == act = "start" /\ act' = "run" /\ k' = 0
  /\ \E be \in {Rnd({"host", "device"})} : \E sch \in {IF be = "host" THEN Rnd({"explicit", "quasistatic"}) ELSE "explicit"} :
     \E nx \in {IF sch = "explicit" THEN Rnd(1..5) ELSE Rnd(2..3)} : \E nb \in {IF Rnd(1..3) = 1 THEN 1 ELSE Rnd(1..3)} :
     \E K0 \in {Rnd(5..9)} : \E mu0 \in {Rnd({3, 6})} : \E s \in {Rnd({-2, -1, 1, 2, 3})} :
     \E bl \in {TLCEval([i \in 1..nb |-> [kind |-> IF sch = "explicit" /\ Rnd(1..4) = 1 THEN "elastic" ELSE "recorder",
                                         K |-> IF sch = "explicit" THEN Rnd(5..9) ELSE K0, mu |-> IF sch = "explicit" THEN Rnd({3, 6}) ELSE mu0,
                                         a0 |-> Rnd(1..6), m |-> Rnd(1..3)]])} :
     \E of \in {TLCEval([j \in 1..nx |-> Rnd(1..nb)])} :
     \E d \in {TLCEval([j \in 1..(nx + 1) |-> IF sch = "explicit" THEN Rnd(-4..4) ELSE s * (j - 1)])} :
     \E ny \in {IF sch = "explicit" THEN Rnd(1..2) ELSE 2} : \E nz \in {IF sch = "explicit" THEN 1 ELSE 2} :
     \E n \in {Rnd(IF sch = "explicit" THEN 1..7 ELSE 2..4)} : \E fr \in {Rnd(1..3)} : \E cut \in {IF sch = "explicit" THEN Rnd(0..(nx - 1)) ELSE 0} :
       /\ c' = [be |-> be, scheme |-> sch, nx |-> nx, ny |-> ny, nz |-> nz, blocks |-> bl, of |-> of, d |-> d, n |-> n, freq |-> fr, cut |-> cut]
       /\ mem' = [j \in 1..nx |-> Fresh(be, bl[of[j]])]
       /\ out' = <<[j \in 1..nx |-> Fresh(be, bl[of[j]])]>>

\* a load step: the driven points move, the memory advances once
Step == act = "run" /\ k < c.n /\ k' = k + 1
     /\ mem' = TLCEval([j \in Cols |-> LET g == (c.d[j + 1] - c.d[j]) * (k + 1) b == Blk(j) m == mem[j] IN
                  [g |-> g, S |-> NewStress(b, m, g), st |-> NewState(c.be, b, m, g)]])
     /\ out' = Append(out, mem') /\ UNCHANGED <<act, c>>
End == act = "run" /\ k = c.n /\ act' = "done" /\ UNCHANGED <<c, k, mem, out>>
Next == Make \/ Step \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the memory counts every step once: what accumulates is the sum over the
\* steps so far, what looks back looks back one step
Tri(n) == (n * (n + 1)) \div 2
Counted == act # "start" => \A j \in Cols : LET b == Blk(j) g1 == c.d[j + 1] - c.d[j] m == mem[j] IN b.kind = "recorder" =>
   /\ m.S[1] = Elastic(b, g1)[1] * Tri(k)
   /\ m.S[4] = b.K * g1 * Tri(k)
   /\ k > 0 => m.S[3] = Elastic(b, g1)[3] * k + 3 * b.mu * g1 * (k - 1)
   /\ (c.be = "host") => m.st.h[1] = b.a0 + g1 * Tri(k)
   /\ (c.be = "host" /\ b.m = 3 /\ k > 0) => m.st.h[3] = g1 * (k - 1)
   /\ (c.be = "device") => m.st.sc = g1 * Tri(k)
\* columns do not see each other
Local == [][act = "run" /\ k' = k + 1 => \A i, j \in Cols : (mem[i] = mem[j] /\ Blk(i) = Blk(j) /\ c.d[i + 1] - c.d[i] = c.d[j + 1] - c.d[j]) => mem'[i] = mem'[j]]_vars
Emit == act = "done" => PrintT("BEH " \o ToJson([c |-> c, out |-> out]))
=============================================================================
