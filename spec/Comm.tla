------------------------------- MODULE Comm -------------------------------
(* The communication context (nimble::mpicontext) and the serialisation     *)
(* used with it.  A behaviour is a number of ranks and a sequence of        *)
(* operations; each operation takes one argument per rank and the model     *)
(* says what every rank holds afterwards.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MinRanks, MaxRanks, MaxOps, Kinds

VARIABLES nr, ops, phase
vars == <<nr, ops, phase>>

R == 1..nr                      \* rank r is number r - 1
Pick(S) == RandomElement(S)
Words == {"", "a", "bc", "rank ", "x=1;", "longer text here"}
Ints == {-7, 0, 1, 2, 5, 9, 100, 4095, 2147483647, -2147483647}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Nothing == <<>>

(* a random vector of up to m numbers; small: nonnegative numbers below 12 *)
Vec(m, S) == LET F(n) == [i \in 1..n |-> Pick(S)] IN F(Pick(0..m))
Vecs(m, S) == TLCEval([r \in R |-> TLCEval(Vec(m, S))])

(* ranks that share colour c, ordered by key and then by rank *)
RECURSIVE Ordered(_, _)
Ordered(S, key) == IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : key[x] < key[y] \/ (key[x] = key[y] /\ x <= y)
       IN  <<m>> \o Ordered(S \ {m}, key)
At(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* new numbers by first appearance, rank by rank *)
FirstSeen(all) == LET flat == Flat(all)
                      dist == {flat[i] : i \in DOMAIN flat}
                      first(v) == CHOOSE i \in DOMAIN flat : flat[i] = v /\ \A j \in 1..(i-1) : flat[j] # v
                  IN  [v \in dist |-> Cardinality({w \in dist : first(w) < first(v)})]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
At0(f) == [r \in R |-> IF r = 1 THEN f ELSE Nothing]

Say(o) == ops' = Append(ops, o)

DoGather == \E a \in {Vecs(5, Ints)} : \E root \in {Pick(R)} :
  Say([k |-> "gather", a |-> a, root |-> root - 1, want |-> [r \in R |-> IF r = root THEN a ELSE Nothing]])
DoScatter == \E a \in {Vecs(5, Ints)} : \E root \in {Pick(R)} :
  Say([k |-> "scatter", src |-> a, root |-> root - 1, want |-> a])
DoAllgather == \E a \in {TLCEval([r \in R |-> Pick(Ints)])} : \E k \in {Pick({"allgather", "gather1"})} :
  Say([k |-> k, a |-> a, want |-> IF k = "gather1" THEN At0(a) ELSE [r \in R |-> a]])
DoAllgather3 == \E a \in {TLCEval([r \in R |-> [i \in 1..3 |-> Pick(Ints)]])} : \E k \in {Pick({"allgather3", "gather3", "gatherp"})} :
  Say([k |-> k, a |-> a, want |-> CASE k = "allgather3" -> [r \in R |-> a]
                                    [] k = "gather3" -> At0(a)
                                    [] OTHER -> At0(Flat(a))])
DoAllgatherz == \E a \in {TLCEval([r \in R |-> Pick({0, 1, 77, 2147483647})])} :
  Say([k |-> "allgatherz", a |-> a, want |-> [r \in R |-> a]])
DoBcast == \E a \in {TLCEval([r \in R |-> Pick(Ints)])} : Say([k |-> "bcast", a |-> a, want |-> [r \in R |-> a[1]]])
DoBcast3 == \E a \in {TLCEval([r \in R |-> [i \in 1..3 |-> Pick(Ints)]])} :
  Say([k |-> "bcast3", a |-> a, want |-> [r \in R |-> a[1]]])
DoCat == \E a \in {TLCEval([r \in R |-> Pick(Words)])} :
  Say([k |-> "cat", a |-> a, want |-> [r \in R |-> IF r = 1 THEN Cat(a) ELSE ""]])
DoCatf == \E a \in {TLCEval([r \in R |-> Pick(Words)])} : \E st \in {Pick(Words)} : \E se \in {Pick(Words)} : \E en \in {Pick(Words)} :
  Say([k |-> "catf", a |-> a, start |-> st, sep |-> se, end |-> en,
       want |-> [r \in R |-> IF r = 1 THEN st \o Join(a, se) \o en ELSE ""]])
DoPrint == \E a \in {TLCEval([r \in R |-> Pick(Words)])} : \E st \in {Pick(Words)} : \E se \in {Pick(Words)} : \E en \in {Pick(Words)} :
  Say([k |-> "print", a |-> a, start |-> st, sep |-> se, end |-> en,
       want |-> [r \in R |-> IF r = 1 THEN Cat(a) \o Cat([i \in R |-> a[i] \o "\n"]) \o "7k\n" \o st \o Join(a, se) \o en ELSE ""]])
DoVV == \E a \in {Vecs(4, {0, 1, 2, 3, 50, -9})} :
  Say([k |-> "vv", a |-> a, want |-> At0(Flat(a)), back |-> [r \in R |-> [i \in DOMAIN a[r] |-> 2 * a[r][i] + 1]]])
DoP2P == \E from \in {Pick(R)} : \E to \in {Pick(R \ {from})} : \E msgs \in {TLCEval([i \in 1..Pick(1..4) |-> TLCEval(Vec(9, Ints))])} :
         \E how \in {Pick({"vec", "raw", "keep", "packbuf", "packnobuf"})} : \E tag \in {Pick({0, 1, 77, 4000})} :
  Say([k |-> "p2p", a |-> [r \in R |-> 0], from |-> from - 1, to |-> to - 1, tag |-> tag, how |-> how, msgs |-> msgs,
       want |-> [r \in R |-> IF r = to THEN msgs ELSE Nothing],
       counts |-> [i \in DOMAIN msgs |-> Len(msgs[i])]])
DoSplit == \E keyed \in {Pick({TRUE, FALSE})} :
           \E a \in {TLCEval([r \in R |-> <<Pick(0..2), Pick(-2..3)>>])} :
  LET key == [r \in R |-> IF keyed THEN a[r][2] ELSE 0]
      mates(r) == Ordered({s \in R : a[s][1] = a[r][1]}, key)
  IN  Say([k |-> "split", keyed |-> keyed, a |-> a,
           want |-> [r \in R |-> [rank |-> At(mates(r), r) - 1, size |-> Len(mates(r)),
                                  all |-> [i \in DOMAIN mates(r) |-> mates(r)[i] - 1]]]])
DoSkip == \E a \in {TLCEval([r \in R |-> Pick({-1, 0, 1})])} :
  Say([k |-> "skip", a |-> a, want |-> [r \in R |-> a[r] = -1]])
DoPackIds == \E a \in {TLCEval([r \in R |-> TLCEval([i \in 1..Pick(1..5) |-> Pick({0, 3, 4, 7, 11, 500, 70000})])])} :
  LET f == FirstSeen(a) IN
  Say([k |-> "packids", a |-> a, n |-> [r \in R |-> Len(a[r])],
       max |-> Max({a[r][i] : <<r, i>> \in {<<s, j>> \in R \X (1..5) : j \in DOMAIN a[s]}}),
       want |-> [r \in R |-> [i \in DOMAIN a[r] |-> f[a[r][i]]]]])

Init == /\ nr \in MinRanks..MaxRanks /\ ops = <<>> /\ phase = "go"
Step == /\ phase = "go" /\ Len(ops) < MaxOps /\ UNCHANGED <<nr, phase>>
        /\ \E k \in {Pick(Kinds)} :
             \/ (k = "gather" /\ DoGather) \/ (k = "scatter" /\ DoScatter)
             \/ (k = "allgather" /\ DoAllgather) \/ (k = "allgather3" /\ DoAllgather3)
             \/ (k = "allgatherz" /\ DoAllgatherz) \/ (k = "bcast" /\ DoBcast) \/ (k = "bcast3" /\ DoBcast3)
             \/ (k = "cat" /\ DoCat) \/ (k = "catf" /\ DoCatf) \/ (k = "print" /\ DoPrint)
             \/ (k = "vv" /\ DoVV) \/ (k = "p2p" /\ nr > 1 /\ DoP2P) \/ (k = "p2p" /\ nr = 1 /\ DoBcast)
             \/ (k = "split" /\ DoSplit) \/ (k = "skip" /\ DoSkip) \/ (k = "packids" /\ DoPackIds)
Done == /\ phase = "go" /\ Len(ops) = MaxOps
        /\ PrintT("BEH " \o ToJson([nr |-> nr, ops |-> ops]))
        /\ phase' = "done" /\ UNCHANGED <<nr, ops>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
