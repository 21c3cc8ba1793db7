-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* How a run ends.  Every rank goes through the stages of the program;     *)
(* a fault makes the ranks it touches fail at its stage.  Stages that need *)
(* all ranks (`Together') wait for them; the launcher stops everyone when  *)
(* a rank has failed.  The deck and the command line are shared, a mesh    *)
(* and an output file belong to one rank.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIZES,        \* numbers of ranks
          MAXFAULTS

VARIABLES np, tpetra, faults, harmless, stage, ended, phase
vars == <<np, tpetra, faults, harmless, stage, ended, phase>>

Stages == <<"cli", "start", "deck", "mesh", "blocks", "output", "conditions", "steps", "finish">>
At(s) == CHOOSE i \in 1..Len(Stages) : Stages[i] = s
Together == {"start", "blocks", "steps", "finish"}

\* faults: where they are noticed, whether by one rank or all
SharedFaults ==
  [cli    |-> {"no arguments", "no such deck", "deck is a directory"},
   deck   |-> {"unknown setting", "line without colon", "no value", "bad switch", "bad number", "block line without material",
               "bad contact visualization"},
   mesh   |-> {"no mesh setting"},
   blocks |-> {"unknown material model", "material not defined", "block without material", "unknown material key",
               "missing material parameter", "material number is no number", "material key without value"},
   output |-> {"no output fields", "no output directory", "bad time scheme"},
   conditions |-> {"bad condition type", "bad direction", "condition without magnitude", "magnitude is no number",
                   "malformed expression", "unknown symbol in expression", "unbalanced quotes", "condition too short"},
   steps  |-> {"final before initial", "contact without secondary blocks", "contact without penalty", "contact penalty without value",
               "contact penalty is no number", "contact penalty is not positive", "no contact visualization directory"}]
RankFaults == [mesh |-> {"mesh missing", "mesh is text", "mesh is empty", "mesh truncated"}]
Faults == {[what |-> w, stage |-> s, rank |-> 0] : s \in DOMAIN SharedFaults, w \in UNION {SharedFaults[x] : x \in DOMAIN SharedFaults}}
          \cup {[what |-> w, stage |-> "mesh", rank |-> r] : w \in RankFaults.mesh, r \in 1..3}
Real(f) == IF f.rank = 0 THEN f.what \in SharedFaults[f.stage] ELSE f.rank <= np
\* oddities that are no faults
Oddities == {"condition on unknown set", "line for absent block", "unknown output field", "material never used",
             "repeated setting", "empty condition set", "zero steps of output",
             "contact", "contact of absent blocks", "contact visualization", "contact visualization without contact"}

Init == /\ np \in SIZES /\ tpetra \in BOOLEAN /\ faults = {} /\ harmless = {}
        /\ stage = [r \in 1..3 |-> 1] /\ ended = [r \in 1..3 |-> "running"] /\ phase = "plan"
PlanFault == phase = "plan" /\ Cardinality(faults) < MAXFAULTS
             /\ \E f \in Faults : Real(f) /\ f \notin faults /\ faults' = faults \cup {f}
             /\ UNCHANGED <<np, tpetra, harmless, stage, ended, phase>>
PlanOddity == phase = "plan" /\ harmless = {} /\ faults = {} /\ \E o \in Oddities : harmless' = {o}
             /\ UNCHANGED <<np, tpetra, faults, stage, ended, phase>>
Go == phase = "plan" /\ phase' = "run" /\ UNCHANGED <<np, tpetra, faults, harmless, stage, ended>>

R == 1..np
Hits(r, s) == \E f \in faults : f.stage = s /\ (f.rank = 0 \/ f.rank = r)
Running(r) == ended[r] = "running"
Failed == \E r \in R : ended[r] \in {"failed", "stopped"}
\* a stage that needs everyone is passed when everyone has reached it
Ready(r) == Stages[stage[r]] \in Together => \A q \in R : stage[q] >= stage[r]
Advance(r) == phase = "run" /\ Running(r) /\ stage[r] <= Len(Stages) /\ Ready(r) /\ ~Hits(r, Stages[stage[r]])
              /\ stage' = [stage EXCEPT ![r] = @ + 1]
              /\ ended' = (IF stage[r] = Len(Stages) THEN [ended EXCEPT ![r] = "finished"] ELSE ended)
              /\ UNCHANGED <<np, tpetra, faults, harmless, phase>>
Fail(r) == phase = "run" /\ Running(r) /\ Hits(r, Stages[stage[r]]) /\ Ready(r)
           /\ ended' = [ended EXCEPT ![r] = "failed"] /\ UNCHANGED <<np, tpetra, faults, harmless, stage, phase>>
\* the launcher
Kill(r) == phase = "run" /\ Running(r) /\ Failed /\ ended' = [ended EXCEPT ![r] = "stopped"]
           /\ UNCHANGED <<np, tpetra, faults, harmless, stage, phase>>
Over == phase = "run" /\ \A r \in R : ~Running(r)
Close == Over /\ phase' = "over" /\ UNCHANGED <<np, tpetra, faults, harmless, stage, ended>>
Next == PlanFault \/ PlanOddity \/ Go \/ (\E r \in R : Advance(r) \/ Fail(r) \/ Kill(r)) \/ Close
Fairness == WF_vars(Go) /\ \A r \in 1..3 : WF_vars(r <= np /\ Advance(r)) /\ WF_vars(r <= np /\ Fail(r)) /\ WF_vars(r <= np /\ Kill(r))
Spec == Init /\ [][Next]_vars /\ Fairness /\ WF_vars(Close)

Status == IF Failed THEN "error" ELSE "zero"
\* the status tells whether there was a fault, whatever the schedule
Loud == phase = "over" => (Status = "error" <=> faults # {})
\* nobody finishes while another one has failed: results are never half there with status zero
AllOrNone == phase = "over" /\ Status = "zero" => \A r \in R : ended[r] = "finished" /\ stage[r] > Len(Stages)
\* no rank waits for ever
Ends == <>(phase = "over")
EmitInv == phase = "over" => PrintT("BEH " \o ToJson([np |-> np, tpetra |-> tpetra, faults |-> faults, odd |-> harmless, status |-> Status]))
=============================================================================
