-------------------------------- MODULE Cli ---------------------------------
(* The command line.                                                         *)
(*                                                                           *)
(* The words of the command line are read from left to right.  The first    *)
(* word that is no option names the deck; options may stand anywhere;       *)
(* words and options that are not known are left to the libraries.  What     *)
(* happens next - a run of one deck on the chosen communication layer, the  *)
(* help message, or a refusal before anything is run - is decided by the     *)
(* words alone.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXWORDS

VARIABLES act, words, rd
vars == <<act, words, rd>>

Decks == {"a.in", "sub/b.in"}
\* names that are no deck: nothing there, a directory, the mesh of a deck that does not exist
NoFile == {"missing.in", "sub", "-", "use_tpetra"}
Tpetra == [on |-> {"--use_tpetra", "--use_tpetra=true", "--use_tpetra=1"}, off |-> {"--use_tpetra=false"}, bad |-> {"--use_tpetra=perhaps"}]
NotBuilt == {"--use_vt", "--use_uq"}
Help == {"--help", "-h"}
Unknown == {"--odd", "--kokkos-num-threads=1", "-x"}
Rest == {"--"}
Words == Decks \cup NoFile \cup Tpetra.on \cup Tpetra.off \cup Tpetra.bad \cup NotBuilt \cup Help \cup Unknown \cup Rest
IsOption(w) == w \in Tpetra.on \cup Tpetra.off \cup Tpetra.bad \cup NotBuilt \cup Help \cup Unknown \cup Rest

Fresh == [input |-> "", tpetra |-> FALSE, bad |-> FALSE, help |-> FALSE, rest |-> FALSE]
\* one word read
Step(r, w) ==
  IF r.rest \/ ~IsOption(w) THEN IF r.input = "" THEN [r EXCEPT !.input = w] ELSE r
  ELSE IF w \in Tpetra.on THEN [r EXCEPT !.tpetra = TRUE]
  ELSE IF w \in Tpetra.off THEN [r EXCEPT !.tpetra = FALSE]
  ELSE IF w \in Tpetra.bad \cup NotBuilt THEN [r EXCEPT !.bad = TRUE]
  ELSE IF w \in Help THEN [r EXCEPT !.help = TRUE]
  ELSE IF w \in Rest THEN [r EXCEPT !.rest = TRUE]
  ELSE r
Refused(r) == r.bad \/ (r.input # "" /\ r.input \notin Decks)
\* help asked for together with something to refuse: one of the two
Outcome(r) == IF r.help THEN IF Refused(r) THEN "no run" ELSE "help"
              ELSE IF Refused(r) \/ r.input = "" THEN "refuse" ELSE "run"

Init == act = "run" /\ words = <<>> /\ rd = Fresh
Say(w) == act = "run" /\ Len(words) < MAXWORDS /\ words' = Append(words, w) /\ rd' = Step(rd, w) /\ UNCHANGED act
Stop == act = "run" /\ act' = "done" /\ UNCHANGED <<words, rd>>
Next == (\E w \in Words : Say(w)) \/ Stop
Spec == Init /\ [][Next]_vars
\* for longer command lines: mostly words that leave a run possible
SimNext == (Len(words) = MAXWORDS /\ Stop) \/ \E w \in {RandomElement(IF RandomElement(1..5) > 1 + 0 * Len(words) THEN Decks \cup Tpetra.on \cup Tpetra.off \cup Unknown \cup Rest ELSE Words)} : Say(w)
SimSpec == Init /\ [][SimNext]_vars

-----------------------------------------------------------------------------
RECURSIVE Fold(_, _)
Fold(r, ws) == IF ws = <<>> THEN r ELSE Fold(Step(r, Head(ws)), Tail(ws))
\* the place of an option among the words does not matter, unless "--" stands before it or its own word comes again
Has(S) == \E i \in 1..Len(words) : words[i] \in S
Pos == SelectSeq(words, LAMBDA w : ~IsOption(w))
Placed == ~Has(Rest) => /\ rd.input = (IF Pos = <<>> THEN "" ELSE Pos[1])
                        /\ rd.bad = Has(Tpetra.bad \cup NotBuilt) /\ rd.help = Has(Help)
                        /\ (~Has(Tpetra.off) => rd.tpetra = Has(Tpetra.on))
\* a run has one deck that exists, and nothing asked for that is not there
RunNeeds == Outcome(rd) = "run" => rd.input \in Decks /\ ~rd.bad /\ ~rd.help
\* words that are not known change nothing
Ignored == Outcome(Fold(Fresh, SelectSeq(words, LAMBDA w : w \notin Unknown))) = Outcome(rd) \/ (Has(Rest) /\ Has(Unknown))
Emission == [words |-> words, outcome |-> Outcome(rd), input |-> rd.input, tpetra |-> rd.tpetra]
EmitInv == act = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
