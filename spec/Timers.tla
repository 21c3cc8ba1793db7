------------------------------- MODULE Timers -------------------------------
(* Named timers, nested regions, stop watches.  Time is the number of the    *)
(* operation; what a timer answers is the set of intervals it has run in,    *)
(* given by the operations that began and ended them.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXOPS
VARIABLES act, run, past, stack, watch, ops
vars == <<act, run, past, stack, watch, ops>>

Rnd(S) == RandomElement(S)
Names == {"a", "b", "a b"}
Now == Len(ops) + 1
Go == act = "run" /\ Len(ops) < MAXOPS
Do(op, name, over) == ops' = Append(ops, [op |-> op, name |-> name, over |-> over]) /\ UNCHANGED act

\* run[n]: when timer n was started, 0 if it does not run; past[n]: the intervals it ran in
Init == act = "run" /\ run = [n \in Names |-> 0] /\ past = [n \in Names |-> <<>>] /\ stack = <<>> /\ watch = 0 /\ ops = <<>>
Wait == Go /\ Do("wait", "", <<>>) /\ UNCHANGED <<run, past, stack, watch>>
Begin == Go /\ \E n \in Names : run[n] = 0 /\ run' = [run EXCEPT ![n] = Now] /\ Do("start", n, <<>>) /\ UNCHANGED <<past, stack, watch>>
End(op) == Go /\ \E n \in Names : run[n] > 0 /\ run' = [run EXCEPT ![n] = 0] /\ past' = [past EXCEPT ![n] = Append(@, <<run[n], Now>>)]
  /\ Do(op, n, IF op = "stop report" THEN <<<<run[n], Now>>>> ELSE <<>>) /\ UNCHANGED <<stack, watch>>
Ask == Go /\ \E n \in Names : past[n] # <<>> /\ Do("elapsed", n, past[n]) /\ UNCHANGED <<run, past, stack, watch>>
\* regions nest: a region that ends is the last one that began
Push == Go /\ Len(stack) < 4 /\ \E n \in Names : stack' = Append(stack, Now) /\ Do("push", n, <<>>) /\ UNCHANGED <<run, past, watch>>
Pop == Go /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do("pop", "", <<<<stack[Len(stack)], Now>>>>) /\ UNCHANGED <<run, past, watch>>
Zero == Go /\ watch' = Now /\ Do("reset", "", <<>>) /\ UNCHANGED <<run, past, stack>>
Age == Go /\ watch > 0 /\ \E u \in {"seconds", "milliseconds", "microseconds", "nanoseconds"} : Do("age", u, <<<<watch, Now>>>>) /\ UNCHANGED <<run, past, stack, watch>>
Timed == Go /\ Do("function", "", <<<<Now, Now>>>>) /\ UNCHANGED <<run, past, stack, watch>>
Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<run, past, stack, watch, ops>>
Next == Wait \/ Begin \/ End("stop") \/ End("stop report") \/ Ask \/ Push \/ Pop \/ Zero \/ Age \/ Timed \/ Finish
Spec == Init /\ [][Next]_vars

\* a timer never runs in two intervals at once; regions nest
Apart == \A n \in Names : \A i, j \in DOMAIN past[n] : i < j => past[n][i][2] < past[n][j][1]
Nested == \A i, j \in DOMAIN stack : i < j => stack[i] < stack[j]
EmitInv == act = "done" => PrintT("BEH " \o ToJson([ops |-> ops]))
=============================================================================
