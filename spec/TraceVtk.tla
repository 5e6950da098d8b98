------------------------------ MODULE TraceVtk ------------------------------
(* Recorded calls of the VTK post-processor and the files found afterwards, against Vtk.            *)
EXTENDS Vtk, TraceBase
K == <<ev.n, ev.d>>
Fields == {ev.f[1].fields[i] : i \in DOMAIN ev.f[1].fields}
\* exactly one file was written: number k of processor i, with exactly the specified contents (fields in any order)
Written(i, k) == LET w == procs'[i].files[<<procs[i].name, k>>] IN
  /\ Len(ev.f) = 1 /\ ev.f[1].ok /\ ev.f[1].name = procs[i].name \o ToString(k) \o ".vtk"
  /\ ev.f[1].pts = w.pts /\ ev.f[1].cells = w.cells /\ ev.f[1].types = w.types
  /\ Fields = w.fields /\ Len(ev.f[1].fields) = Cardinality(w.fields)
Empty == /\ pos = <<>> /\ els = <<>> /\ used = {} /\ eused = {} /\ u = <<>> /\ eu = <<>> /\ r = <<>> /\ res = <<>> /\ procs = <<>>
Reset == /\ pos' = <<>> /\ els' = <<>> /\ used' = {} /\ eused' = {} /\ u' = <<>> /\ eu' = <<>> /\ r' = <<>> /\ res' = <<>> /\ procs' = <<>>
Step ==
  CASE ev.e = "begin" -> Reset
    [] ev.e = "end" -> UNCHANGED vars
    [] ev.e = "nodes" -> pos' = ev.p /\ UNCHANGED <<els, used, eused, u, eu, r, res, procs>>
    [] ev.e = "el" -> els' = Append(els, [t |-> ev.t, s |-> ev.s, n |-> ev.n]) /\ UNCHANGED <<pos, used, eused, u, eu, r, res, procs>>
    [] ev.e = "init" -> used' = {ev.u[i] : i \in DOMAIN ev.u} /\ eused' = {ev.eu[i] : i \in DOMAIN ev.eu} /\ u' = <<>> /\ eu' = <<>> /\ r' = <<>> /\ UNCHANGED <<pos, els, res, procs>>
    [] ev.e = "u" -> K \in used /\ SetU(K :> ev.v)
    [] ev.e = "eu" -> K \in eused /\ eu' = (K :> ev.v) @@ eu /\ UNCHANGED <<pos, els, used, eused, u, r, res, procs>>
    [] ev.e = "r" -> K \in used /\ r' = (K :> ev.v) @@ r /\ UNCHANGED <<pos, els, used, eused, u, eu, res, procs>>
    [] ev.e = "res" -> res' = (<<ev.n, ev.k, ev.q>> :> ev.v) @@ res /\ UNCHANGED <<pos, els, used, eused, u, eu, r, procs>>
    [] ev.e = "proc" -> NewProc(ev.i, ev.name)
    [] ev.e = "all" -> WriteAll(ev.i, ev.b)
    [] ev.e = "reg" -> ev.ok /\ Register(ev.i, ev.k, {ev.q[i] : i \in DOMAIN ev.q})
    [] ev.e = "pre" -> Pre(ev.i) /\ Written(ev.i, 0)
    [] ev.e = "process" -> Process(ev.i, ev.k) /\ Written(ev.i, ev.k)
    [] ev.e = "post" -> ev.f = <<>> /\ UNCHANGED vars
    [] OTHER -> FALSE
TInit == Empty /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
