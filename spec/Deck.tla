-------------------------------- MODULE Deck --------------------------------
(***************************************************************************)
(* The input deck.  A line is a sequence of pieces (spaces, tabs, "#",     *)
(* ":" and words); ReadLine gives its meaning; Apply gives the effect of   *)
(* a setting on the deck's meaning.                                        *)
(*                                                                         *)
(* The writer adds lines one at a time: settings decorated with formatting *)
(* noise, lines that mean nothing, and lines that are malformed.  `intent' *)
(* is what the writer meant, and must be what the reader reads.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXLINES, BADS, NOISE, PIECES, MAXPIECES

VARIABLES lines, deck, intent, phase, cur
vars == <<lines, deck, intent, phase, cur>>

\* ---- lines
Blank(p) == p \in {" ", "   ", "\t"}
RECURSIVE Upto(_, _), LTrim(_), RTrim(_), Glue(_)
Upto(l, stop) == IF l = <<>> \/ Head(l) = stop THEN <<>> ELSE <<Head(l)>> \o Upto(Tail(l), stop)
LTrim(l) == IF l # <<>> /\ Blank(Head(l)) THEN LTrim(Tail(l)) ELSE l
RTrim(l) == IF l # <<>> /\ Blank(l[Len(l)]) THEN RTrim(SubSeq(l, 1, Len(l) - 1)) ELSE l
Glue(l) == IF l = <<>> THEN "" ELSE Head(l) \o Glue(Tail(l))
Trim(l) == LTrim(RTrim(l))
Has(l, p) == \E i \in 1..Len(l) : l[i] = p
\* words of a value
RECURSIVE Words(_)
Words(l) == LET t == LTrim(l) IN
  IF t = <<>> THEN <<>>
  ELSE IF \E i \in 1..Len(t) : Blank(t[i])
       THEN LET i == CHOOSE i \in 1..Len(t) : Blank(t[i]) /\ \A j \in 1..(i - 1) : ~Blank(t[j])
            IN <<Glue(SubSeq(t, 1, i - 1))>> \o Words(SubSeq(t, i, Len(t)))
       ELSE <<Glue(t)>>
ReadLine(l) ==
  LET body == Trim(Upto(l, "#")) IN
  IF body = <<>> THEN [what |-> "nothing", key |-> "", val |-> <<>>]
  ELSE IF ~Has(body, ":") THEN [what |-> "error", key |-> "", val |-> <<>>]
  ELSE LET key == Trim(Upto(body, ":"))
           val == Trim(SubSeq(body, Len(Upto(body, ":")) + 2, Len(body)))
       IN IF val = <<>> THEN [what |-> "error", key |-> Glue(key), val |-> <<>>]
          ELSE [what |-> "setting", key |-> Glue(key), val |-> val]

\* ---- settings
TextKeys == {"genesis input file", "exodus output file", "time integration scheme", "contact", "contact backend",
             "output fields"}
RealKeys == {"nonlinear solver relative tolerance", "initial time", "final time"}
IntKeys  == {"nonlinear solver maximum iterations", "number of load steps", "output frequency"}
BoolKeys == {"use two level mesh decomposition", "write timing data file"}
IntLits  == {"0", "1", "12", "-3", "200", "+4", "007"}
RealLits == IntLits \cup {"2.5", "-1.0e-3", "1E2", ".5", "7.", "1.0e+1"}
Yes == {"true", "yes", "on", "TRUE", "Yes", "oN"}
No  == {"false", "no", "off", "False", "NO", "OFF"}
Default ==
  [set |-> [k \in TextKeys \cup RealKeys \cup IntKeys \cup BoolKeys |->
     CASE k \in {"genesis input file", "exodus output file"} -> "none"
       [] k = "time integration scheme" -> "explicit"
       [] k = "nonlinear solver relative tolerance" -> "1.0e-6"
       [] k = "nonlinear solver maximum iterations" -> "200"
       [] k = "output frequency" -> "1"
       [] k \in {"initial time", "final time", "number of load steps"} -> "0"
       [] k \in BoolKeys -> "off"
       [] OTHER -> ""],
   mats |-> <<>>, blocks |-> <<>>, bcs |-> <<>>,
   vis |-> <<FALSE, FALSE, "none">>, err |-> FALSE]
\* association lists: the last definition of a name counts
Put(al, k, v) == SelectSeq(al, LAMBDA x : x.k # k) \o <<[k |-> k, v |-> v]>>
\* block ids follow the last underscore of the block's name
BlockName(id) == CASE id = 1 -> "block_1" [] id = 2 -> "block_2" [] id = 10 -> "part_a_10" [] id = 7 -> "x_07"
BlockIds == {1, 2, 7, 10}
BlockIdOf(n) == IF \E i \in BlockIds : BlockName(i) = n THEN CHOOSE i \in BlockIds : BlockName(i) = n ELSE -1
Apply(d, k, val) ==
  LET text == Glue(val)
      w == Words(val)
      bad == [d EXCEPT !.err = TRUE] IN
  CASE k \in TextKeys -> [d EXCEPT !.set[k] = text]
    [] k \in RealKeys -> IF text \in RealLits THEN [d EXCEPT !.set[k] = text] ELSE bad
    [] k \in IntKeys -> IF text \in IntLits THEN [d EXCEPT !.set[k] = text] ELSE bad
    [] k \in BoolKeys -> IF text \in Yes THEN [d EXCEPT !.set[k] = "on"]
                         ELSE IF text \in No THEN [d EXCEPT !.set[k] = "off"] ELSE bad
    [] k = "boundary condition" -> [d EXCEPT !.bcs = Append(@, text)]
    [] k = "material parameters" -> IF Len(w) < 2 THEN bad ELSE [d EXCEPT !.mats = Put(@, w[1], Tail(w))]
    [] k = "element block" ->
         IF Len(w) < 2 \/ BlockIdOf(w[1]) = -1 THEN bad ELSE [d EXCEPT !.blocks = Put(@, BlockIdOf(w[1]), w[2])]
    [] k = "contact visualization" ->
         IF Len(w) = 6 /\ w[1] = "visualize_contact_entities" /\ w[3] = "visualize_bounding_boxes" /\ w[5] = "file_name"
            /\ w[2] \in {"on", "off"} /\ w[4] \in {"on", "off"}
         THEN [d EXCEPT !.vis = <<w[2] = "on", w[4] = "on", w[6]>>] ELSE bad
    [] k \in {"contact dicing", "contact splitting"} -> d        \* no effect in this configuration
    [] OTHER -> bad
\* reading stops at the first error
ReadStep(d, l) ==
  IF d.err THEN d
  ELSE LET r == ReadLine(l) IN
       CASE r.what = "nothing" -> d
         [] r.what = "error" -> [d EXCEPT !.err = TRUE]
         [] OTHER -> Apply(d, r.key, r.val)
RECURSIVE Read(_, _, _)
Read(d, ls, i) == IF i > Len(ls) THEN d ELSE Read(ReadStep(d, ls[i]), ls, i + 1)

\* ---- the writer
\* "~" stands for the gap between two words of a value
Sp(ws) == IF Len(ws) = 1 THEN ws ELSE LET RECURSIVE F(_) F(i) == IF i = Len(ws) THEN <<ws[i]>> ELSE <<ws[i], "~">> \o F(i + 1) IN F(1)
TextVals == {<<"m.g">>, <<"dir/m.e">>, <<"none">>, <<"quasistatic">>, <<"explicit">>, <<"a", "b">>, <<"x:y">>, <<"LONG">>}
MatVals == {<<n, "neohookean", "density", v, "bulk_modulus", "1.6e2", "shear_modulus", "0.8">> : n \in {"m1", "m2", "mat_1"}, v \in {"7.8", "1", "0.5"}}
           \cup {<<n, "elastic", "shear_modulus", v, "density", "3", "bulk_modulus", "1e6">> : n \in {"m1", "m2", "mat_1"}, v \in {"2", "4.5"}}
BCVals == {<<"prescribed_velocity", "nodelist_1", "x", v>> : v \in {"0.0", "-1.5", "\"t*2\"", "\"x>1?LONG:0\""}}
          \cup {<<"initial_velocity", n, "y", "10">> : n \in {"nodelist_2", "ns"}} \cup {<<"prescribed_displacement", "left", "z", "\"2 * x + t\"">>}
VisVals == {<<"visualize_contact_entities", a, "visualize_bounding_boxes", b, "file_name", "c.e">> : a, b \in {"on", "off"}}
Good == {[k |-> k, v |-> v] : k \in TextKeys, v \in TextVals}
        \cup {[k |-> k, v |-> <<v>>] : k \in RealKeys, v \in RealLits}
        \cup {[k |-> k, v |-> <<v>>] : k \in IntKeys, v \in IntLits}
        \cup {[k |-> k, v |-> <<v>>] : k \in BoolKeys, v \in Yes \cup No}
        \cup {[k |-> "boundary condition", v |-> v] : v \in BCVals}
        \cup {[k |-> "material parameters", v |-> v] : v \in MatVals}
        \cup {[k |-> "element block", v |-> <<BlockName(i), m>>] : i \in BlockIds, m \in {"m1", "m2", "mat_1"}}
        \cup {[k |-> "contact visualization", v |-> v] : v \in VisVals}
        \cup {[k |-> "contact dicing", v |-> <<"2">>], [k |-> "contact splitting", v |-> <<"a", "b">>]}
Keys == {g.k : g \in Good}
\* malformed settings
BadSet == {[k |-> k, v |-> <<v>>] : k \in BoolKeys, v \in {"2", "truee", "y", "t", "1"}}
          \cup {[k |-> k, v |-> <<v>>] : k \in RealKeys, v \in {"abc", "1.0x", "--1", "1e", "one", "1,5", "nan", "inf", "-infinity", "1e999", "NAN"}}
          \cup {[k |-> k, v |-> <<v>>] : k \in IntKeys, v \in {"abc", "1x", "2.5", "1e3", "ten"}}
          \cup {[k |-> k, v |-> <<"1", "2">>] : k \in RealKeys \cup IntKeys}
          \cup {[k |-> k, v |-> <<"1">>] : k \in {"final tim", "Final time", "output  frequency", "foo", "element blocks", "genesis", "boundary condition x"}}
          \cup {[k |-> "element block", v |-> v] : v \in {<<"block_1">>, <<"block", "m1">>, <<"block_", "m1">>, <<"block_x", "m1">>}}
          \cup {[k |-> "material parameters", v |-> <<"m1">>]}
          \cup {[k |-> "contact visualization", v |-> v] :
                  v \in {<<"visualize_contact_entities", "on">>, <<"visualize_contact_entities", "yes", "visualize_bounding_boxes", "off", "file_name", "c.e">>,
                         <<"visualize_contact_entities", "on", "visualize_bounding_boxes", "On", "file_name", "c.e">>,
                         <<"visualize_bounding_boxes", "on", "visualize_contact_entities", "on", "file_name", "c.e">>,
                         <<"visualize_contact_entities", "on", "visualize_bounding_boxes", "off", "file_name", "c.e", "d.e">>,
                         <<"visualize_contact_entities", "on", "visualize_bounding_boxes", "off", "name", "c.e">>}}
\* gaps: free text keeps its inner gaps, lists of words do not
Gap(k, g) == IF k \in TextKeys \cup {"boundary condition"} THEN " " ELSE g
Fill(k, v, g) == [i \in 1..Len(Sp(v)) |-> IF Sp(v)[i] = "~" THEN Gap(k, g) ELSE Sp(v)[i]]
Indents == IF NOISE THEN {<<>>, <<" ">>, <<"\t">>, <<"   ", "\t">>} ELSE {<<>>}
Afters  == IF NOISE THEN {<<>>, <<" ">>, <<"\t">>} ELSE {<<>>}
Befores == IF NOISE THEN {<<" ">>, <<>>, <<"   ", "   ">>, <<"\t", "\t">>} ELSE {<<" ">>}
Trails  == IF NOISE THEN {<<>>, <<" ">>, <<"\t", " ">>, <<"#">>, <<" ", "#", "final time", ":", "3">>, <<"#", "LONG">>} ELSE {<<>>}
Gaps    == IF NOISE THEN {" ", "   "} ELSE {" "}
Nothings == {<<>>, <<" ">>, <<"\t">>, <<"   ", "\t", " ">>, <<"#">>, <<"#", "text">>, <<" ", "#", "text">>,
             <<"\t", "#", "final time", ":", "9">>, <<"#", "LONG">>, <<" ", "#", "#", ":">>}
Malformed == {<<"final time">>, <<"foo">>, <<"final time", ":">>, <<"final time", " ", ":", " ">>, <<"final time", "#", ":", "1">>,
              <<"final time", ":", "\t", "#", "1">>, <<":">>, <<":", "1">>, <<" ", ":", " ", "explicit">>, <<"output fields", ":">>,
              <<"genesis input file", " ", "m.g">>, <<"boundary condition", ":", " ", "#">>, <<"LONG">>, <<"explicit">>}

Init == lines = <<>> /\ deck = Default /\ intent = Default /\ cur = <<>> /\ phase = "line"

AddLine(l, i) == /\ lines' = Append(lines, l) /\ deck' = ReadStep(deck, l) /\ intent' = i /\ cur' = <<>>
                 /\ phase' = "line"
\* the choices of one line are made in separate steps to keep them equally likely
Room == phase = "line" /\ Len(lines) < MAXLINES
PickKey == Room /\ \E k \in Keys : cur' = <<k>> /\ phase' = "value" /\ UNCHANGED <<lines, deck, intent>>
PickValue == phase = "value" /\ \E s \in Good : s.k = cur[1] /\ cur' = <<s, FALSE>> /\ phase' = "gap"
             /\ UNCHANGED <<lines, deck, intent>>
PickBad == Room /\ BADS > 0 /\ ~intent.err /\ \E s \in BadSet : cur' = <<s, TRUE>> /\ phase' = "gap"
           /\ UNCHANGED <<lines, deck, intent>>
PickGap == phase = "gap" /\ \E g \in Gaps : \E a \in Afters : \E b \in Befores :
             cur' = <<cur[1].k>> \o a \o <<":">> \o b \o Fill(cur[1].k, cur[1].v, g) /\ phase' = "frame"
             /\ intent' = (IF intent.err THEN intent
                           ELSE IF cur[2] THEN [intent EXCEPT !.err = TRUE]
                           ELSE Apply(intent, cur[1].k, Fill(cur[1].k, cur[1].v, " ")))
             /\ UNCHANGED <<lines, deck>>
PickFrame == phase = "frame" /\ \E i \in Indents : \E t \in Trails : AddLine(i \o cur \o t, intent)
PickNothing == Room /\ NOISE /\ \E n \in Nothings : AddLine(n, intent)
PickMalformed == Room /\ BADS > 0 /\ ~intent.err /\ \E m \in Malformed : AddLine(m, [intent EXCEPT !.err = TRUE])
\* every line over a small alphabet of pieces, between two good lines
PickPiece == phase = "line" /\ PIECES # {} /\ Len(lines) = 0 /\ Len(cur) < MAXPIECES
             /\ \E p \in PIECES : cur' = Append(cur, p) /\ UNCHANGED <<lines, deck, intent, phase>>
EndPiece == phase = "line" /\ PIECES # {} /\ Len(lines) = 0
            /\ LET ls == << <<"output frequency", ":", " ", "12">>, cur, <<"number of load steps", ":", " ", "200">> >>
               IN lines' = ls /\ deck' = Read(Default, ls, 1) /\ intent' = deck' /\ phase' = "done" /\ cur' = <<>>
Finish == phase = "line" /\ PIECES = {} /\ Len(lines) >= MAXLINES /\ (BADS > 0 => intent.err) /\ phase' = "done"
          /\ UNCHANGED <<lines, deck, intent, cur>>
GiveUp == phase = "line" /\ PIECES = {} /\ Len(lines) >= MAXLINES /\ BADS > 0 /\ ~intent.err /\ phase' = "void"
          /\ UNCHANGED <<lines, deck, intent, cur>>

Next == IF PIECES # {} THEN PickPiece \/ EndPiece
        ELSE PickKey \/ PickValue \/ PickBad \/ PickGap \/ PickFrame \/ PickNothing \/ PickMalformed \/ Finish \/ GiveUp
Spec == Init /\ [][Next]_vars

\* ---- properties
\* what is read is what was meant, whatever the noise
Faithful == phase \in {"line", "done"} => (deck.err = intent.err /\ (~deck.err => deck = intent))
\* reading is a fold: nothing is forgotten, errors are final
ErrorFinal == deck.err => Read(Default, lines, 1).err
LastWins == (phase = "done" /\ ~deck.err /\ PIECES = {}) => deck = Read(Default, lines, 1)

Emission == [lines |-> lines, deck |-> deck]
EmitInv == phase = "done" => PrintT("BEH " \o ToJson(Emission))
=============================================================================
