------------------------------ MODULE MeshFile ------------------------------
(* A mesh and the results on it, in memory and in files.                     *)
(*                                                                           *)
(* A mesh is made elsewhere, or put together by the program; it is loaded,   *)
(* asked about, saved in a database of either kind, results are appended to  *)
(* the databases that are open, in any order, and what was saved is loaded   *)
(* again.  Coordinates and values are integers (times a unit that is the     *)
(* renderer's).                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXOPS, NF
VARIABLES act, mem, files, pairs, ops
vars == <<act, mem, files, pairs, ops>>

Go == act = "run" /\ Len(ops) < MAXOPS
Rnd(S) == RandomElement({s \in S : Len(ops) >= 0})
Some(n) == Rnd(1..n) = 1
Do(e) == ops' = Append(ops, e) /\ UNCHANGED act
SetOf(s) == {s[i] : i \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* a sequence of k different members of S
RECURSIVE Draw(_, _)
Draw(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == Rnd(S) IN <<x>> \o Draw(S \ {x}, k - 1)
RECURSIVE Toss(_, _)
Toss(S, k) == IF k = 0 THEN <<>> ELSE <<Rnd(S)>> \o Toss(S, k - 1)

-----------------------------------------------------------------------------
\* meshes
NoMesh == [dim |-> 0, nodes |-> <<>>, blocks |-> <<>>, nsets |-> <<>>, ssets |-> <<>>]
Ids == {1, 2, 3, 7, 10, 40, 123, 9999, 70000, 2000000000}
\* a name in a database has at most 32 characters; in a text file, and in memory, it may be longer
Long == "a_part_whose_name_is_longer_than_a_database_holds"
Cut(name) == IF name = Long THEN "a_part_whose_name_is_longer_than" ELSE name
Fits == {"b", "Steel", "steel", "block_77", "x_1", "a_part_whose_name_just_fits_here"}
Words == Fits \cup {Long}
Spaced == Fits \cup {"a part", "nodelist 3"}
PerElem(dim) == IF dim = 2 THEN {3, 4} ELSE {1, 3, 4, 8}
Type(dim, npe) == CASE npe = 1 -> "SPHERE" [] npe = 3 -> "TRIANGLE" [] npe = 4 -> (IF dim = 2 THEN "QUAD" ELSE "TETRA") [] npe = 8 -> "HEX"

\* blocks ids[k..] with elements of n nodes; g is the number of elements before them
RECURSIVE Blocks(_, _, _, _, _, _, _)
Blocks(dim, n, ids, names, gids, k, empty) ==
  IF k > Len(ids) THEN <<>>
  ELSE LET npe == Rnd({p \in PerElem(dim) : p <= n})
           ne == IF empty /\ Some(4) THEN 0 ELSE Rnd(1..3)
           es == [e \in 1..ne |-> [id |-> gids[3 * (k - 1) + e], conn |-> Draw(1..n, npe)]]
       IN <<[id |-> ids[k], name |-> names[k], npe |-> npe, elems |-> es]>> \o Blocks(dim, n, ids, names, gids, k + 1, empty)
RECURSIVE Sets(_, _, _, _, _)
Sets(n, ids, names, k, dfs) ==
  IF k > Len(ids) THEN <<>>
  ELSE LET m == Rnd(0..3)
           s == Draw(1..n, m)
           df == IF dfs /\ Rnd({1, 2}) = 1 THEN Toss(-9..9, Len(s)) ELSE <<>>
       IN <<[id |-> ids[k], name |-> names[k], nodes |-> s, df |-> df]>> \o Sets(n, ids, names, k + 1, dfs)
\* names of k things, some without a name
Names(S, k, blank) == LET w == Draw(S, k) IN [i \in 1..k |-> IF blank /\ Some(2) THEN "" ELSE w[i]]

Elems(m) == Flat([b \in 1..Len(m.blocks) |-> m.blocks[b].elems])
Mesh(kind) ==
  LET dim == IF kind = "exodus" /\ Some(4) THEN 2 ELSE 3
      n == Rnd(4..11)
      gid == Draw((1..60) \cup {4000, 70000, 2000000000}, n)
      nb == Rnd(1..3)
      words == IF kind = "exodus" THEN Spaced ELSE Words
      nodes == [i \in 1..n |-> [id |-> gid[i], x |-> <<Rnd(-50..50), Rnd(-50..50), IF dim = 3 THEN Rnd(-50..50) ELSE 0>>]]
      bl == Blocks(dim, n, Draw(Ids, nb), Names(words, nb, kind = "exodus"), Draw((1..99) \cup {4000, 70000, 2000000000}, 9), 1, kind = "exodus")
      m == [dim |-> dim, nodes |-> nodes, blocks |-> bl, nsets |-> <<>>, ssets |-> <<>>]
      ks == Rnd(0..3)
      kq == IF kind = "exodus" THEN Rnd(0..2) ELSE 0
      ns == Sets(n, Draw(Ids, ks), Names(words, ks, kind = "exodus"), 1, kind = "exodus")
      ss == Sets(Len(Elems(m)), Draw(Ids, kq), Names(words, kq, TRUE), 1, TRUE)
  IN [m EXCEPT !.nsets = IF kind = "made" THEN <<>> ELSE ns, !.ssets = ss]
Solid(m) == Elems(m) # <<>>

Full(b) == b.elems # <<>>
\* what is seen of a mesh in a file: things without a name get one from their number
Called(prefix, x) == IF x.name = "" THEN [x EXCEPT !.name = prefix \o ToString(x.id)] ELSE x
Seen(m) == [m EXCEPT !.blocks = [i \in 1..Len(@) |-> Called("block_", @[i])], !.nsets = [i \in 1..Len(@) |-> Called("nodelist_", @[i])],
                     !.ssets = [i \in 1..Len(@) |-> Called("sideset_", @[i])]]
\* what a database of either kind keeps of the mesh in memory
Kept(kind, m) ==
  IF kind = "exodus" THEN [m EXCEPT !.ssets = <<>>, !.blocks = [i \in 1..Len(@) |-> [@[i] EXCEPT !.name = Cut(@)]],
                                    !.nsets = [i \in 1..Len(@) |-> [@[i] EXCEPT !.name = Cut(@)]]]
  ELSE [m EXCEPT !.ssets = <<>>, !.blocks = SelectSeq(@, Full), !.nsets = [i \in 1..Len(@) |-> [@[i] EXCEPT !.df = <<>>]]]
Wordy(m) == \A x \in SetOf(m.blocks) \cup SetOf(m.nsets) : x.name \in Words \cup {Cut(Long)} \/ \E i \in Ids : x.name \in {"block_" \o ToString(i), "nodelist_" \o ToString(i)}

-----------------------------------------------------------------------------
\* files: closed or open databases, with the results in them
NoFile == [kind |-> "none", open |-> FALSE, mesh |-> NoMesh, what |-> <<>>, steps |-> <<>>]
GNames == {"kinetic", "g_2", "the_global_value_whose_name_just_fits"}
NNames == {"displacement_x", "velocity_y", "temp", "the_nodal_quantity_with_a_name_of_more_than_32"}
ENames == {"stress_xx", "ipt01_s", "q", "ipt08_a_material_state_variable_with_a_long_name"}
DNames == {"volume", "mises"}

Init == act = "run" /\ mem = NoMesh /\ files = [f \in 1..NF |-> NoFile] /\ pairs = <<>> /\ ops = <<>>
Have == mem.dim > 0
\* the blocks that have elements
Lives == SelectSeq(mem.blocks, Full)

Outside == Go /\ \E kind \in {"exodus", "text"} : \E f \in 1..NF : \E m \in {TLCEval(Mesh(kind))} :
  /\ Solid(m) /\ files' = [files EXCEPT ![f] = [NoFile EXCEPT !.kind = kind, !.mesh = m]]
  /\ Do([op |-> "outside", f |-> f, kind |-> kind, mesh |-> m]) /\ UNCHANGED <<mem, pairs>>
Load == Go /\ \E f \in 1..NF : files[f].kind # "none" /\ mem' = Seen(files[f].mesh) /\ pairs' = <<>>
  /\ Do([op |-> "load", f |-> f, kind |-> files[f].kind, mesh |-> mem']) /\ UNCHANGED files
Make == Go /\ Some(3) /\ \E m \in {TLCEval(Mesh("made"))} : mem' = m /\ pairs' = <<>> /\ Do([op |-> "make", mesh |-> m]) /\ UNCHANGED files
Save == Go /\ Have /\ \E kind \in {"exodus", "text"} : \E f \in 1..NF :
  /\ (kind = "text" => mem.dim = 3 /\ Wordy(mem))
  /\ \E w \in {TLCEval([g |-> Draw(GNames, Rnd(0..2)), n |-> Draw(NNames, Rnd(0..3)),
                        e |-> [b \in 1..Len(Lives) |-> Draw(ENames, Rnd(0..3))], d |-> [b \in 1..Len(Lives) |-> Draw(DNames, Rnd(0..2))]])} :
       /\ files' = [files EXCEPT ![f] = [kind |-> kind, open |-> TRUE, mesh |-> Kept(kind, mem), what |-> w, steps |-> <<>>]]
       /\ Do([op |-> "save", f |-> f, kind |-> kind, what |-> w, bids |-> [b \in 1..Len(Lives) |-> Lives[b].id]])
       /\ UNCHANGED <<mem, pairs>>
\* a step of results: values for the mesh of the file
Step == Go /\ \E f \in 1..NF : files[f].open /\
  LET F == files[f]
      nn == Len(F.mesh.nodes)
      B == SelectSeq(F.mesh.blocks, Full)
      On(names) == [b \in 1..Len(B) |-> [i \in 1..Len(names[b]) |-> Toss(-999..999, Len(B[b].elems))]]
  IN \E s \in {TLCEval([time |-> (IF F.steps = <<>> THEN Rnd(-3..3) ELSE F.steps[Len(F.steps)].time + Rnd(1..9)),
                        g |-> Toss(-999..999, Len(F.what.g)), n |-> [i \in 1..Len(F.what.n) |-> Toss(-999..999, nn)], e |-> On(F.what.e), d |-> On(F.what.d)])} :
       /\ files' = [files EXCEPT ![f].steps = Append(@, s)]
       /\ Do([op |-> "step", f |-> f, kind |-> F.kind, bids |-> [b \in 1..Len(B) |-> B[b].id], s |-> s]) /\ UNCHANGED <<mem, pairs>>

-----------------------------------------------------------------------------
\* questions
Known == {b.name : b \in SetOf(Lives)}
IdOf(name) == LET S == {b.id : b \in {c \in SetOf(Lives) : c.name = name}} IN IF S = {} THEN -1 ELSE Min(S)
Span(c) == LET X == {p.x[c] : p \in SetOf(mem.nodes)} IN <<Min(X), Max(X)>>
Ask == Go /\ Have /\ \E n \in {TLCEval(Toss(Known \cup Spaced \cup {Long} \cup {"", "block_1"}, 3))} :
  /\ Do([op |-> "blocks", names |-> n, ids |-> [i \in 1..3 |-> IdOf(n[i])]]) /\ UNCHANGED <<mem, files, pairs>>
Box == Go /\ Have /\ Do([op |-> "box", lo |-> <<Span(1)[1], Span(2)[1], Span(3)[1]>>, hi |-> <<Span(1)[2], Span(2)[2], Span(3)[2]>>]) /\ UNCHANGED <<mem, files, pairs>>
\* pairs of nodes that are one node of a periodic body: the second follows the first
Follow(ps, a, b) == SelectSeq(ps, LAMBDA p : p[1] # a) \o <<<<a, b>>>>
Pair == Go /\ Have /\ \E q \in {TLCEval(Draw(1..Len(mem.nodes), 2))} :
  /\ pairs' = Follow(pairs, mem.nodes[q[2]].id, mem.nodes[q[1]].id)
  /\ Do([op |-> "pair", q |-> q, pairs |-> pairs']) /\ UNCHANGED <<mem, files>>
\* the unknowns that meet in an element, when node i is number num[i] of the linear system
Matrix == Go /\ Have /\ \E num \in {TLCEval(IF Some(2) THEN Draw(0..(Len(mem.nodes) - 1), Len(mem.nodes)) ELSE Toss(0..(Len(mem.nodes) - 1), Len(mem.nodes)))} :
  LET meet == UNION {{<<num[i], num[j]>> : i, j \in SetOf(e.conn)} : e \in SetOf(Elems(mem))}
  IN Do([op |-> "matrix", num |-> num, meet |-> meet]) /\ UNCHANGED <<mem, files, pairs>>

\* the model of the mesh: the nodes are where the mesh has them, in as many directions
Place == Go /\ Have /\ Do([op |-> "place", x |-> [i \in 1..Len(mem.nodes) |-> SubSeq(mem.nodes[i].x, 1, mem.dim)]]) /\ UNCHANGED <<mem, files, pairs>>

Finish == act = "run" /\ Len(ops) = MAXOPS /\ act' = "done" /\ UNCHANGED <<mem, files, pairs, ops>>
Next == Outside \/ Load \/ Load \/ Make \/ Save \/ Save \/ Step \/ Step \/ Ask \/ Box \/ Pair \/ Place \/ Matrix \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what was saved is what will be seen: saving and loading again changes nothing that is kept
RoundTrip == \A f \in 1..NF : files[f].open => Seen(files[f].mesh) = files[f].mesh /\ \A kind \in {"exodus", "text"} : Kept(kind, Kept(kind, files[f].mesh)) = Kept(kind, files[f].mesh)
\* elements, nodes and sets have numbers of their own; time goes on
Distinct(s) == Cardinality({s[i].id : i \in 1..Len(s)}) = Len(s)
WellFormed == Have => Distinct(mem.nodes) /\ Distinct(mem.blocks) /\ Distinct(Elems(mem)) /\ Distinct(mem.nsets)
   /\ Cardinality({b.name : b \in SetOf(mem.blocks)}) = Len(mem.blocks)
Forward == \A f \in 1..NF : \A i \in 1..(Len(files[f].steps) - 1) : files[f].steps[i].time < files[f].steps[i + 1].time
EmitInv == act = "done" => PrintT("BEH " \o ToJson([ops |-> ops, files |-> files]))
=============================================================================
