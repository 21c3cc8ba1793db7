----------------------------- MODULE TimingFile -----------------------------
(* The folder into which runs write their timing data: the name of a file    *)
(* is that of the number of ranks and of the time stamp, every blank of which*)
(* becomes a dash; what was there under this name before is gone, everything *)
(* else stays; a folder of this name cannot be written, and stays.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS PIECES, MAXOPS
VARIABLES act, stamps, folder, dirs, ops
vars == <<act, stamps, folder, dirs, ops>>

Rnd(S) == RandomElement({s \in S : Len(ops) >= 0})
RECURSIVE Glue(_)
Glue(l) == IF l = <<>> THEN "" ELSE Head(l) \o Glue(Tail(l))
Dash(s) == [i \in DOMAIN s |-> IF s[i] = " " THEN "-" ELSE s[i]]
Name(np, s) == <<"nimble_timing_data_n", ToString(np), "_">> \o Dash(s) \o <<".log">>

Init == act = "stamp" /\ stamps = <<>> /\ folder = [n \in {} |-> <<>>] /\ dirs = {} /\ ops = <<>>
\* a few stamps, which several records share
Stamp == act = "stamp" /\ Len(stamps) < 3 /\ \E n \in {RandomElement({k \in 0..9 : Len(stamps) >= 0})} :
  stamps' = Append(stamps, [i \in 1..n |-> RandomElement({p \in PIECES : i > 0 /\ Len(stamps) >= 0})]) /\ UNCHANGED <<act, folder, dirs, ops>>
Begin == act = "stamp" /\ Len(stamps) = 3 /\ act' = "run" /\ UNCHANGED <<stamps, folder, dirs, ops>>
Go == act = "run" /\ Len(ops) < MAXOPS
Times == {0, 1, 2, 7, 8, 80, 4097, 7999}
Write == Go /\ \E np \in {Rnd({1, 2, 16, 1024})}, k \in {Rnd(1..3)}, t1 \in {Rnd(Times)}, t2 \in {Rnd(Times)}, t3 \in {Rnd(Times)}, t4 \in {Rnd(Times)}, t5 \in {Rnd(Times)} :
  LET s == stamps[k] t == <<t1, t2, t3, t4, t5>> nm == Name(np, s) fits == nm \notin dirs IN
  /\ folder' = IF fits THEN [n \in DOMAIN folder \cup {nm} |-> IF n = nm THEN <<np>> \o t ELSE folder[n]] ELSE folder
  /\ ops' = Append(ops, [op |-> "write", np |-> np, stamp |-> Glue(s), t |-> t, made |-> fits])
  /\ UNCHANGED <<act, stamps, dirs>>
\* somebody else puts a file, or a folder, there
Other(kind) == Go /\ \E np \in {Rnd({1, 2, 16})}, k \in {Rnd(1..3)} : LET nm == Name(np, stamps[k]) IN nm \notin DOMAIN folder \cup dirs
  /\ folder' = (IF kind = "file" THEN [n \in DOMAIN folder \cup {nm} |-> IF n = nm THEN <<>> ELSE folder[n]] ELSE folder)
  /\ dirs' = (IF kind = "folder" THEN dirs \cup {nm} ELSE dirs) /\ ops' = Append(ops, [op |-> kind, name |-> Glue(nm)]) /\ UNCHANGED <<act, stamps>>
Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<stamps, folder, dirs, ops>>
Next == Stamp \/ Begin \/ Write \/ Other("file") \/ Other("folder") \/ Finish
Spec == Init /\ [][Next]_vars

\* no name holds a blank; a name is that of a file or that of a folder; a record is that of its number of ranks
NoBlank == \A n \in DOMAIN folder \cup dirs : \A i \in DOMAIN n : n[i] # " "
Either == DOMAIN folder \cap dirs = {}
Ranks == \A n \in DOMAIN folder : folder[n] # <<>> => n[2] = ToString(folder[n][1])
List(S) == LET RECURSIVE L(_) L(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o L(T \ {x}) IN L(S)
EmitInv == act = "done" => PrintT("BEH " \o ToJson([ops |-> ops, files |-> [i \in 1..Cardinality(DOMAIN folder) |-> LET n == List(DOMAIN folder)[i] IN <<Glue(n), folder[n]>>],
                                                       dirs |-> [i \in 1..Cardinality(dirs) |-> Glue(List(dirs)[i])]]))
=============================================================================
