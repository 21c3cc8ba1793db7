----------------------------- MODULE ContactRun -----------------------------
(* A run with contact: every body is moved with a velocity of its own, so the *)
(* position of every step is known, and with it the contact forces of that    *)
(* step (Contact.tla).  The forces are those of the step's own position, and  *)
(* the facets and contact nodes shown in the visualisation are there too.     *)
(* On several ranks a contact node meets the facets of its own rank.          *)
EXTENDS Contact

CONSTANT VEL   \* components of the velocity of a body, per step
\* sel.run: velocities and number of steps
RStart == act = "done" /\ \E r \in {[v |-> TLCEval([b \in 1..3 |-> <<Pick(VEL), Pick(VEL), Pick(VEL)>>]), steps |-> Pick(1..STEPS), freq |-> Pick({1, 1, 2, 3})]} :
  sel' = sel @@ [run |-> r] /\ act' = "move" /\ UNCHANGED <<M, parts, u, hist>>
At1(s) == TLCEval([n \in Range(M.nodes) |-> [i \in 1..3 |-> s * sel.run.v[n[1]][i]]])
RMove == act = "move" /\ \E w \in {At1(Len(hist) + 1)} : u' = w /\ act' = "eval" /\ UNCHANGED <<M, parts, sel, hist>>
REval == act = "eval" /\ \E p \in {Pairs(u)} :
  /\ hist' = (IF p.ok THEN Append(hist, [u |-> u, way |-> 1, hits |-> p.hits]) ELSE hist)
  /\ act' = (IF ~ p.ok THEN "doubtful" ELSE IF Len(hist) + 1 = sel.run.steps THEN "end" ELSE "move")
  /\ UNCHANGED <<M, parts, sel, u>>
RNext == Build \/ RStart \/ RMove \/ REval
RSpec == CInit /\ [][RNext]_cvars

\* the outputs: the start, every step that is a multiple of the frequency (from zero), and the last
Written == {s \in 1..sel.run.steps : (s - 1) % sel.run.freq = 0 \/ s = sel.run.steps}
\* bodies that move alike do not meet: nothing happens that is not there already at rest
Alike == act \in {"move", "end"} /\ Len(hist) > 1 /\ sel.run.v[1] = sel.run.v[2] /\ sel.run.v[2] = sel.run.v[3] =>
  \A s \in DOMAIN hist : {<<h.n, h.q, h.k, h.h>> : h \in hist[s].hits} = {<<h.n, h.q, h.k, h.h>> : h \in hist[1].hits}
\* only nodes and facets of the lists
Listed == hist # <<>> => \A h \in hist[Len(hist)].hits :
  /\ h.n \in SurfaceNodes(M, sel.ss)
  /\ \E cf \in sel.sp : M.cyc[cf] = h.q
RHit(h) == Hit(h) @@ [e |-> M.eid[(CHOOSE cf \in sel.sp : M.cyc[cf] = h.q)[1]]]
REmission == [CEmission EXCEPT !.steps = [s \in DOMAIN hist |-> [hits |-> {RHit(h) : h \in hist[s].hits}]]]
  @@ [run |-> sel.run, written |-> Written,
      body |-> [k \in DOMAIN M.nodes |-> <<M.gid[M.nodes[k]], M.nodes[k][1]>>],
      own |-> [j \in DOMAIN parts |-> {<<M.gid[n], sel.own[j][n]>> : n \in DOMAIN sel.own[j]}]]
EmitRun == act = "end" => PrintT("BEH " \o ToJson(REmission))
=============================================================================
