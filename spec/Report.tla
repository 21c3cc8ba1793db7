------------------------------- MODULE Report -------------------------------
(* What a run reports is what it did.                                        *)
(*                                                                           *)
(* An acceptor of recorded reports.  Traces is a sequence of records         *)
(*   [c |-> what was run, ev |-> the events of its report, in order];        *)
(* an event is [e |-> name, a, b, c |-> numbers].  A report is accepted when *)
(* it leads from "start" to an accepting state; where it does not, the       *)
(* number of the event that does not fit is printed.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT File
Traces == TLCEval(JsonDeserialize(File))

VARIABLES tr, k, st
vars == <<tr, k, st>>

C == Traces[tr].c
Ev == Traces[tr].ev
\* the state: phase, load steps done, iteration, whether the residual is above
\* the tolerance (1), not (0), equal as printed (2) or no number (3), times reported
Start == [ph |-> "start", s |-> 0, it |-> -1, over |-> 0, t |-> <<>>, ranks |-> {}]
Bad(s) == [s EXCEPT !.ph = "bad"]
To(s, ph) == [s EXCEPT !.ph = ph]
If(ok, s, new) == IF ok THEN new ELSE Bad(s)

\* progress is reported where a tenth of the load steps, or all of them, are done
Reports(s) == (10 * s) % C.n = 0 \/ s = C.n
NextReport(s) == CHOOSE x \in (s + 1)..C.n : Reports(x) /\ \A y \in (s + 1)..(x - 1) : ~Reports(y)
\* the time step against the critical one, in units of the former over 10000
Exceeds == IF C.crit < 0 THEN 2 ELSE IF C.crit > 10001 THEN 0 ELSE IF C.crit < 9999 THEN 1 ELSE 2
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y) == Abs(x - y) <= 1 + (Abs(y) \div 1000)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Common(s, e) ==
  CASE e.e = "communicator" -> If(s.ph = "start" /\ C.tpetra = 1, s, s)
    [] e.e = "ranks" -> If(s.ph = "start" /\ e.a = C.np, s, To(s, "banner"))
    [] e.e = "nodes" -> If(s.ph = "banner" /\ C.np = 1 /\ e.a = C.nodes, s, To(s, "nodes"))
    [] e.e = "elements" -> If(s.ph = "nodes" /\ e.a = C.elems, s, To(s, "elements"))
    [] e.e = "blocks" -> If(s.ph = (IF C.np = 1 THEN "elements" ELSE "banner") /\ e.a = C.blocks, s, To(s, "blocks"))
    [] e.e = "ranks again" -> If(s.ph = "blocks" /\ e.a = C.np, s, To(s, "mesh"))
    [] OTHER -> Bad(s)

Explicit(s, e) ==
  CASE e.e = "facets" -> If(s.ph = "mesh" /\ C.contact = 1 /\ e.a = C.facets, s, To(s, "facets"))
    [] e.e = "contact nodes" -> If(s.ph = "facets" /\ e.a = C.cnodes, s, To(s, "ready"))
    [] e.e = "step" -> If(s.ph = (IF C.contact = 1 THEN "ready" ELSE "mesh") /\ Close(e.a, 10000), s, To(s, "dt"))
    [] e.e = "critical" -> If(s.ph = "dt" /\ (C.crit < 0 \/ Close(e.a, C.crit)), s, To(s, "crit"))
    [] e.e = "warning" -> If(s.ph = "crit" /\ Exceeds # 0, s, To(s, "warned"))
    [] e.e = "progress" -> IF e.a = 0 /\ s.ph \in {"crit", "warned"} THEN If(s.ph = "warned" \/ Exceeds # 1, s, To(s, "run"))
                           ELSE If(s.ph = "run" /\ s.s < C.n /\ LET x == NextReport(s.s) IN e.a = (100 * x) \div C.n, s,
                                   [s EXCEPT !.s = NextReport(s.s), !.ph = IF NextReport(s.s) = C.n THEN "over" ELSE "run"])
    [] e.e = "total time" -> If(s.ph = "over" /\ e.a >= 0, s, [s EXCEPT !.ph = "timed", !.t = <<e.a>>])
    [] e.e \in {"update time", "force time", "contact time", "output time"} ->
         If(s.ph = "timed" /\ e.a >= 0 /\ Len(s.t) < 5
            /\ Len(s.t) = (CASE e.e = "update time" -> 1 [] e.e = "force time" -> 2 [] e.e = "contact time" -> 3 [] e.e = "output time" -> IF C.contact = 1 THEN 4 ELSE 3),
            s, [s EXCEPT !.t = Append(@, e.a), !.ph = IF e.e = "output time" THEN "reported" ELSE "timed"])
    \* contact at e.b of C.n load steps on rank e.a
    [] e.e = "entries" -> If(s.ph = "reported" /\ e.a \notin s.ranks /\ e.a \in 0..(C.np - 1) /\ e.c = C.n /\ e.b = C.entries[e.a + 1] /\ e.b > 0, s, [s EXCEPT !.ranks = @ \cup {e.a}])
    \* the file of times has the number of ranks and the times reported
    [] e.e = "file" -> If(s.ph = "reported" /\ C.timing = 1 /\ e.a = C.np /\ e.b = C.np, s, To(s, "file"))
    [] e.e = "file times" -> If(s.ph = "file" /\ Len(e.a) = 5 /\ Close(e.a[1], s.t[1]) /\ Close(e.a[2], s.t[3])
                                /\ Close(e.a[3], IF C.contact = 1 THEN s.t[4] ELSE 0) /\ Close(e.a[4], s.t[Len(s.t)]), s, To(s, "filed"))
    [] e.e = "status" -> If(s.ph = (IF C.timing = 1 THEN "filed" ELSE "reported") /\ e.a = 0
                            /\ s.ranks = {r \in 0..(C.np - 1) : C.entries[r + 1] > 0}
                            /\ Sum(Tail(s.t)) <= s.t[1] + 5 + s.t[1] \div 1000, s, To(s, "accept"))
    [] OTHER -> Common(s, e)

\* a load step ends where the residual is not above the tolerance
Rests(s) == s.ph = "solved" \/ (s.ph = "step" /\ s.it >= 0 /\ s.over \in {0, 2})
Quasistatic(s, e) ==
  CASE e.e = "nonzeros" -> If(s.ph = "mesh" /\ e.a = C.nonzeros, s, To(s, "matrix"))
    [] e.e = "begin" -> If(s.ph = "matrix", s, To(s, "solved"))
    \* load step e.a at time e.b with tolerance e.c against the first residual: in thousandths of the load step, and of the tolerance asked for
    [] e.e = "load step" -> If(Rests(s) /\ e.a = s.s + 1 /\ e.a <= C.n /\ Close(e.b, 1000 * (C.t0 + e.a)), s, [s EXCEPT !.ph = "step", !.s = e.a, !.it = -1])
    [] e.e = "iteration" -> If(s.ph = "step" /\ e.a = s.it + 1 /\ e.a <= C.limit /\ (s.it < 0 \/ s.over \in {1, 2})
                               /\ (e.a = 0 => e.c < 0) /\ (e.a > 0 => e.c >= 0), s,
                               [s EXCEPT !.it = e.a, !.over = e.b])
    \* the residual of the first iteration times the relative tolerance is the tolerance
    [] e.e = "tolerance" -> If(s.ph = "step" /\ s.it = 0 /\ (e.a - 1000 <= 6 /\ 1000 - e.a <= 6), s, s)
    [] e.e = "not converged" -> If(s.ph = "step" /\ s.it >= 0 /\ (s.over = 3 \/ (s.over # 0 /\ s.it = C.limit)), s, To(s, "failed"))
    [] e.e = "linear solver failed" -> If(s.ph = "step" /\ s.it >= 0 /\ s.over \in {1, 2}, s, To(s, "failed"))
    [] e.e = "complete" -> If(Rests(s) /\ s.s = C.n, s, To(s, "complete"))
    [] e.e = "status" -> If((s.ph = "complete" /\ e.a = 0) \/ (s.ph = "failed" /\ e.a # 0), s, To(s, "accept"))
    [] OTHER -> Common(s, e)

Init == tr \in 1..Len(Traces) /\ k = 0 /\ st = Start
Next == /\ k < Len(Ev) /\ st.ph # "bad" /\ k' = k + 1 /\ UNCHANGED tr
        /\ st' = IF C.scheme = "explicit" THEN Explicit(st, Ev[k + 1]) ELSE Quasistatic(st, Ev[k + 1])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a report never takes a step back, and never goes past the end
Forward == [][st'.s >= st.s /\ st'.s <= C.n]_vars
\* an accepted report is complete
Complete == st.ph = "accept" => k = Len(Ev) /\ (C.scheme = "explicit" => st.s = C.n)
Verdict == IF st.ph = "bad" THEN PrintT("BEH " \o ToJson([tr |-> tr, k |-> k, ok |-> FALSE]))
           ELSE k = Len(Ev) => PrintT("BEH " \o ToJson([tr |-> tr, k |-> k, ok |-> st.ph = "accept"]))
=============================================================================
