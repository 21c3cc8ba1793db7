------------------------------ MODULE Serial ------------------------------
(* Serialisation: packing writes a value as a sequence of atoms (a vector   *)
(* announces its length first), unpacking reads them back.  Types nest.     *)
(* A behaviour packs a few values of one type into one buffer, one after    *)
(* another, each time unpacking into the same object.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxVals

VARIABLES ty, vals, buf, obj, phase
vars == <<ty, vals, buf, obj, phase>>

I == [k |-> "i"]  C == [k |-> "c"]  D == [k |-> "d"]  Z == [k |-> "z"]
S == [k |-> "s"]                                  \* a plain struct {int, double, char}
V(t) == [k |-> "v", t |-> t]
A(n, t) == [k |-> "a", n |-> n, t |-> t]
P(t, u) == [k |-> "p", t |-> t, u |-> u]
R(t) == [k |-> "r", t |-> t]                       \* what a pointer points to

Types == <<I, C, D, Z, S, P(I, D), P(C, I), P(P(I, C), D), P(I, V(D)), P(V(C), I), V(I), V(C), V(D), V(Z), V(S), V(V(I)),
           V(P(I, C)), V(A(3, I)), A(3, I), A(2, V(C)), A(2, P(I, D)), P(V(I), A(2, V(D))),
           V(P(C, V(P(I, D)))), V(V(V(C))), P(C, S), V(P(V(I), V(D))), A(2, A(2, V(I))), R(I), R(V(I)), R(S),
           P(P(V(C), C), P(C, V(V(D)))), V(A(2, V(P(C, C)))), A(1, D), V(P(S, I))>>

Pick(s) == RandomElement(s)
RECURSIVE Value(_, _)
Value(t, m) ==
  CASE t.k = "i" -> Pick({0, 1, -1, 7, 65536, 2147483647, -2147483647})
    [] t.k = "c" -> Pick({0, 1, 10, 65, 127, -128})
    [] t.k = "d" -> Pick({0, 3, -8, 1000003})
    [] t.k = "z" -> Pick({0, 1, 255, 256, 2147483647})
    [] t.k = "s" -> <<Pick({0, 5, -6}), Pick({0, 2, -9}), Pick({1, 2, 77})>>
    \* outermost, now and then a long one
    [] t.k = "v" -> LET F(n) == TLCEval([i \in 1..n |-> Value(t.t, m - 1)])
                    IN  F(IF m = 4 /\ Pick(1..30) = 1 THEN Pick({17, 130, 260, 300}) ELSE Pick(0..m))
    [] t.k = "a" -> TLCEval([i \in 1..t.n |-> Value(t.t, m)])
    [] t.k = "p" -> <<Value(t.t, m), Value(t.u, m)>>
    [] t.k = "r" -> Value(t.t, m)

RECURSIVE Pack(_, _), PackAll(_, _, _)
PackAll(t, v, i) == IF i > Len(v) THEN <<>> ELSE Pack(t, v[i]) \o PackAll(t, v, i + 1)
Pack(t, v) ==
  CASE t.k \in {"i", "c", "d", "z", "s"} -> <<v>>
    [] t.k = "v" -> <<Len(v)>> \o PackAll(t.t, v, 1)
    [] t.k = "a" -> PackAll(t.t, v, 1)
    [] t.k = "p" -> Pack(t.t, v[1]) \o Pack(t.u, v[2])
    [] t.k = "r" -> Pack(t.t, v)
RECURSIVE Size(_, _), SizeAll(_, _, _)
SizeAll(t, v, i) == IF i > Len(v) THEN 0 ELSE Size(t, v[i]) + SizeAll(t, v, i + 1)
Size(t, v) ==
  CASE t.k \in {"i", "c", "d", "z", "s"} -> 1
    [] t.k = "v" -> 1 + SizeAll(t.t, v, 1)
    [] t.k = "a" -> SizeAll(t.t, v, 1)
    [] t.k = "p" -> Size(t.t, v[1]) + Size(t.u, v[2])
    [] t.k = "r" -> Size(t.t, v)
(* reads a value at place i: <<value, next place>> *)
RECURSIVE Read(_, _, _), ReadN(_, _, _, _, _)
ReadN(t, b, i, n, acc) == IF n = 0 THEN <<acc, i>>
                          ELSE LET x == Read(t, b, i) IN ReadN(t, b, x[2], n - 1, Append(acc, x[1]))
Read(t, b, i) ==
  CASE t.k \in {"i", "c", "d", "z", "s"} -> <<b[i], i + 1>>
    [] t.k = "v" -> ReadN(t.t, b, i + 1, b[i], <<>>)
    [] t.k = "a" -> ReadN(t.t, b, i, t.n, <<>>)
    [] t.k = "p" -> LET x == Read(t.t, b, i) y == Read(t.u, b, x[2]) IN <<<<x[1], y[1]>>, y[2]>>
    [] t.k = "r" -> Read(t.t, b, i)

Init == /\ ty = 0 /\ vals = <<>> /\ buf = <<>> /\ obj = 0 /\ phase = "go"
Choose == /\ ty = 0 /\ ty' \in DOMAIN Types /\ UNCHANGED <<vals, buf, obj, phase>>
PackOne == /\ ty > 0 /\ Len(vals) < MaxVals /\ phase = "go"
           /\ \E v \in {Value(Types[ty], 4)} :
                LET b == Pack(Types[ty], v)
                IN  /\ vals' = Append(vals, v)
                    \* the buffer keeps what an earlier, longer value left behind
                    /\ buf' = b \o SubSeq(buf, Len(b) + 1, Len(buf))
           /\ phase' = "packed" /\ UNCHANGED <<ty, obj>>
Unpack == /\ phase = "packed" /\ obj' = Read(Types[ty], buf, 1) /\ phase' = "go" /\ UNCHANGED <<ty, vals, buf>>
Done == /\ phase = "go" /\ Len(vals) = MaxVals
        /\ PrintT("BEH " \o ToJson([ty |-> ty, vals |-> vals]))
        /\ phase' = "done" /\ UNCHANGED <<ty, vals, buf, obj>>
Next == Choose \/ PackOne \/ Unpack \/ Done
Spec == Init /\ [][Next]_vars
RoundTrip == (phase = "go" /\ vals # <<>>) =>
                /\ obj[1] = vals[Len(vals)]
                /\ obj[2] = Size(Types[ty], vals[Len(vals)]) + 1
=============================================================================
