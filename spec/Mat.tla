-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Material definitions: a name followed by pairs of a key and a number.   *)
(* The writer chooses what it means (`intent') and writes the pairs in any *)
(* order; faults are planted one at a time.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NAMES, VALUES, FAULTS

VARIABLES text, intent, fault, left, phase
vars == <<text, intent, fault, left, phase>>

Keys == {"density", "bulk_modulus", "shear_modulus"}
Models == {"neohookean", "elastic"}
BadNums == {"abc", "1x", "density", "--1"}
BadKeys == {"youngs_modulus", "densit", "Density", "poissons_ratio"}

\* ---- the reader
None == [ok |-> FALSE, model |-> "", par |-> [k \in Keys |-> ""]]
RECURSIVE Pairs(_, _)
Pairs(p, t) ==
  IF t = <<>> THEN [ok |-> TRUE, par |-> p]
  ELSE IF Len(t) = 1 \/ t[1] \notin Keys \/ t[2] \notin VALUES THEN [ok |-> FALSE, par |-> p]
  ELSE Pairs([p EXCEPT ![t[1]] = t[2]], SubSeq(t, 3, Len(t)))
Read(t) ==
  IF t = <<>> \/ t[1] \notin Models THEN None
  ELSE LET r == Pairs([k \in Keys |-> ""], Tail(t)) IN
       IF ~r.ok \/ \E k \in Keys : r.par[k] = "" THEN None
       ELSE [ok |-> TRUE, model |-> t[1], par |-> r.par]

\* ---- the writer
Init == text = <<>> /\ intent = None /\ fault = "" /\ left = Keys /\ phase = "model"
Model == phase = "model" /\ \E m \in NAMES : \E p \in [Keys -> VALUES] :
           text' = <<m>> /\ intent' = [ok |-> m \in Models, model |-> m, par |-> p]
           /\ fault' = (IF m \in Models THEN "" ELSE "unknown material") /\ phase' = "pairs" /\ UNCHANGED left
Pair == phase = "pairs" /\ \E k \in left : text' = text \o <<k, intent.par[k]>> /\ left' = left \ {k} /\ UNCHANGED <<intent, fault, phase>>
Free == phase = "pairs" /\ FAULTS /\ fault = ""
Flaw(f, t) == Free /\ text' = t /\ fault' = f /\ UNCHANGED <<intent, phase>>
Missing == \E k \in left : Flaw("missing parameter", text) /\ left' = left \ {k}
NoValue == \E k \in left : Flaw("key without value", text \o <<k>>) /\ left' = left \ {k}
NoKey   == \E k \in left : Flaw("value without key", text \o <<intent.par[k]>>) /\ left' = left \ {k}
BadVal  == \E k \in left : \E v \in BadNums : Flaw("value is no number", text \o <<k, v>>) /\ left' = left \ {k}
BadKey  == \E k \in left : \E b \in BadKeys : Flaw("unknown key", text \o <<b, intent.par[k]>>) /\ left' = left \ {k}
Extra   == \E b \in BadKeys : Flaw("surplus key", text \o <<b, "1">>) /\ UNCHANGED left
Done == phase = "pairs" /\ left = {} /\ phase' = "done" /\ UNCHANGED <<text, intent, fault, left>>
Next == Model \/ Pair \/ Missing \/ NoValue \/ NoKey \/ BadVal \/ BadKey \/ Extra \/ Done
Spec == Init /\ [][Next]_vars

\* what is read is what was meant; a definition with a fault is never accepted
Faithful == phase = "done" => IF fault = "" THEN Read(text) = intent ELSE ~Read(text).ok
EmitInv == phase = "done" => PrintT("BEH " \o ToJson([t |-> text, fault |-> fault, m |-> Read(text)]))
=============================================================================
