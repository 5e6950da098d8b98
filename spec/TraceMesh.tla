----------------------------- MODULE TraceMesh -----------------------------
EXTENDS Mesh, TraceBase
\* the mesh observed in an event
Obs == [nodes |-> ev.nodes, cells |-> ev.cells, fixes |-> ev.fixes, loads |-> ev.loads, mpcs |-> ev.mpcs, comps |-> SeqSet(ev.comps)]
ObsOK == Obs = md' /\ Cardinality(SeqSet(ev.comps)) = Len(ev.comps)
         \* the selections on top of it
         /\ SeqSet(ev.deg) = Degenerated(md') /\ Len(ev.deg) = Cardinality(Degenerated(md'))
         /\ \A k \in DOMAIN ev.sel : SeqSet(ev.sel[k][3]) = ByAttr(md', ev.sel[k][1], ev.sel[k][2]) /\ Len(ev.sel[k][3]) = Cardinality(SeqSet(ev.sel[k][3]))
Step == CASE ev.e = "begin" -> md' = Empty /\ doc' = Empty
          [] ev.e = "end" -> UNCHANGED mvars
          [] ev.e = "doc" -> doc' = Empty /\ UNCHANGED md
          [] ev.e = "rec" -> PutDoc(ev.r, ev.v)
          [] ev.e = "put" -> PutMesh(ev.r, ev.v)
          [] ev.e = "read" -> ev.ok /\ Read /\ ObsOK
          [] ev.e = "missing" -> ~ev.ok /\ UNCHANGED mvars /\ ObsOK
          [] ev.e = "compress" -> WellFormed(md) /\ Compress /\ ObsOK
          [] ev.e = "dump" -> UNCHANGED mvars /\ ObsOK
          [] OTHER -> FALSE
TInit == MInit /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<mvars, l>>
=============================================================================
