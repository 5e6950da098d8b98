------------------------------- MODULE Model -------------------------------
(* The life of a model: its parts are added, changed and deleted in any order, before, between and *)
(* after solutions.  Whatever was there before, the model is what it is now: entities are numbered *)
(* from 1 in the order of their creation, what was deleted has no effect on anything that follows. *)
EXTENDS FE

VARIABLE comps        \* components: sequence of [n, t, l]
mdvars == <<fevars, comps>>

Fresh == reg' = {} /\ con' = {} /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF
\* editing starts over at "mesh"; results of an earlier solution stay readable only through what keeps its numbers
Edit(m) == fm' = m /\ phase' = "mesh" /\ UNCHANGED <<reg, con, eq, meq, req, loc, mrow>>
Origin(n) == [k \in 1..n |-> <<0, 0, 0>>]
AddNodes(n) == Edit([fm EXCEPT !.nn = @ + n, !.pos = @ \o Origin(n)])
AddNode(p) == Edit([fm EXCEPT !.nn = @ + 1, !.pos = Append(@, p)])
MoveNode(k, p) == k \in 1..fm.nn /\ Edit([fm EXCEPT !.pos[k] = p])
Renode(e, ns) == e \in DOMAIN fm.els /\ Len(ns) = Len(fm.els[e].nodes) /\ Edit([fm EXCEPT !.els[e].nodes = ns])
EditMpc(k, b, c) == k \in DOMAIN fm.mpcs /\ Edit([fm EXCEPT !.mpcs[k].b = b, !.mpcs[k].t[1] = <<@[1], @[2], c>>])
DelEls == Edit([fm EXCEPT !.els = <<>>])
DelNodes == Edit([fm EXCEPT !.nn = 0, !.pos = <<>>])
DelMpcs == Edit([fm EXCEPT !.mpcs = <<>>])
DelRigids == Edit([fm EXCEPT !.rigids = <<>>])
DelMesh == Edit([fm EXCEPT !.nn = 0, !.pos = <<>>, !.els = <<>>, !.mpcs = <<>>, !.rigids = <<>>])
\* names need not be distinct: the first one added is found
Found(name) == LET s == {k \in DOMAIN comps : comps[k].n = name} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j

\* a model which can be solved refers to what it has only
Refers == /\ fm.els # <<>> /\ fm.nn > 0
          /\ \A k \in DOMAIN fm.els : SeqSet(fm.els[k].nodes) \subseteq 1..fm.nn /\ Cardinality(SeqSet(fm.els[k].nodes)) = Len(fm.els[k].nodes)
          /\ \A k \in DOMAIN fm.mpcs : \A j \in DOMAIN fm.mpcs[k].t : <<"N", fm.mpcs[k].t[j][1], fm.mpcs[k].t[j][2]>> \in Wanted
          /\ \A k \in DOMAIN fm.rigids : LET r == fm.rigids[k] IN
                {r.m} \cup SeqSet(r.s) \subseteq 1..fm.nn /\ \A s \in SeqSet(r.s), d \in SeqSet(r.d) : <<"N", s, d>> \in Wanted
=============================================================================
