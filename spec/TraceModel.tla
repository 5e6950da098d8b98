----------------------------- MODULE TraceModel -----------------------------
(* Recorded lives of models against Model: everything TraceFE judges, and the edits in between.    *)
EXTENDS TraceFE
VARIABLES comps,   \* components
          dp       \* the dump on file: [K, C, M, F, R, tr, els] or <<>>
mvars == <<tvars, comps, dp>>
MD == INSTANCE Model

Labels == {"ELEM", "NODE"}
CompOK(r, e) == r.n = e.n /\ r.t = (IF e.t \in Labels THEN e.t ELSE "NOT DEFINED") /\ r.l = e.v
\* the shapes of the element types: number of nodes, dimensions
Kinds == [PLANE41 |-> <<4, 2>>, SOLID81 |-> <<8, 3>>, TRUSS3 |-> <<2, 1>>, TRIANGLE4 |-> <<3, 2>>, TETRA0 |-> <<4, 3>>, TETRA1 |-> <<4, 3>>,
          QUADTH |-> <<4, 2>>, SurfaceLINETH |-> <<2, 1>>, INTER0 |-> <<2, 0>>, INTER3 |-> <<6, 3>>]
MakeOK == IF ev.t \in DOMAIN Kinds
          THEN /\ ev.known /\ ev.l = ev.t /\ ev.ne = 2 + ev.n /\ ev.nums = [k \in 1..ev.n |-> k + 2] /\ Len(ev.v) = ev.n
               /\ \A k \in 1..ev.n : ev.v[k] = <<k + 2, Kinds[ev.t][1], Kinds[ev.t][2], 1, 1>>
          ELSE ~ev.known /\ ev.ne = 2

\* a dump: for K (then C and M) the blocks of the constrained, the coupling and the unknown part, then F and R
Off(b) == CASE b = 1 -> <<0, 0, NCon, NCon>> [] b = 2 -> <<0, NCon, NCon, NEq - NCon>> [] OTHER -> <<NCon, NCon, NEq - NCon, NEq - NCon>>
BlockOK(m, b, A) ==
  LET o == Off(b) es == m[4] at == {<<es[k][1], es[k][2]>> : k \in DOMAIN es} IN
    /\ m[1] = o[3] /\ m[2] = o[4] /\ m[3] = Len(es) /\ Cardinality(at) = Len(es)
    /\ \A k \in DOMAIN es : es[k][1] \in 1..o[3] /\ es[k][2] \in 1..o[4] /\ (b # 2 => es[k][1] <= es[k][2]) /\ es[k][3] = A[o[1] + es[k][1]][o[2] + es[k][2]]
    /\ \A i \in 1..o[3], j \in 1..o[4] : (b # 2 => i <= j) /\ A[o[1] + i][o[2] + j] # 0 => <<i, j>> \in at
\* asm0 (the matrices as they are in memory) comes right before
DumpOK == LET a == Trace[l - 1] IN
  /\ ev.ok /\ a.e = "asm0" /\ Len(ev.m) = (IF a.tr THEN 9 ELSE 3)
  /\ \A b \in 1..3 : BlockOK(ev.m[b], b, a.K) /\ (a.tr => BlockOK(ev.m[3 + b], b, a.C) /\ BlockOK(ev.m[6 + b], b, a.M))
  /\ ev.v = <<a.F, ev.R>>
Now == LET a == Trace[l - 1] IN [K |-> a.K, C |-> IF a.tr THEN a.C ELSE <<>>, M |-> IF a.tr THEN a.M ELSE <<>>, F |-> a.F, R |-> ev.R, tr |-> a.tr]
\* compared with the file: the same model must agree; whatever differs (by more than the resolution of the trace) must not
Far(x, y) == Len(x) # Len(y) \/ \E i \in DOMAIN x : Abs(x[i] - y[i]) > 1
CmpOK == /\ Trace[l - 1].e = "cmpdump0" /\ dp # <<>>
         /\ (Now = dp.d /\ dp.els = fm.els /\ dp.con = con => ev.ok)
         /\ (Now.K # dp.d.K \/ (Now.tr = dp.d.tr /\ (Now.C # dp.d.C \/ Now.M # dp.d.M)) \/ Far(Now.F, dp.d.F) \/ Far(Now.R, dp.d.R) => ~ev.ok)

Keeps == UNCHANGED <<comps, dp>>
Old == /\ Step /\ dp' = (IF ev.e = "begin" THEN <<>> ELSE dp) /\ comps' = (IF ev.e \in {"begin", "fe"} THEN <<>> ELSE comps)
Ed == Tv0 /\ Keeps
SameM == UNCHANGED fevars /\ Tv0 /\ Keeps
MStep ==
  CASE ev.e = "mknodes" -> ev.nums = [k \in 1..ev.n |-> fm.nn + k] /\ ev.pos = MD!Origin(ev.n) /\ MD!AddNodes(ev.n) /\ ev.nn = fm'.nn /\ Ed
    [] ev.e = "addnode" -> ev.same /\ MD!AddNode(ev.p) /\ ev.nn = fm'.nn /\ Ed
    [] ev.e = "movenode" -> MD!MoveNode(ev.n, ev.p) /\ Ed
    [] ev.e = "renode" -> MD!Renode(ev.n, ev.nodes) /\ Ed
    [] ev.e = "mpcedit" -> MD!EditMpc(ev.k, ev.b, ev.c) /\ Ed
    [] ev.e = "delels" -> ev.ne = 0 /\ MD!DelEls /\ Ed
    [] ev.e = "delnodes" -> ev.nn = 0 /\ MD!DelNodes /\ Ed
    [] ev.e = "delmpcs" -> ev.nm = 0 /\ MD!DelMpcs /\ Ed
    [] ev.e = "delcolls" -> ev.nm = Len(fm.mpcs) /\ MD!DelRigids /\ Ed
    [] ev.e = "delmesh" -> ev.nn = 0 /\ ev.ne = 0 /\ ev.nm = 0 /\ ev.nc = 0 /\ MD!DelMesh /\ Tv0 /\ comps' = <<>> /\ UNCHANGED dp
    [] ev.e = "comp" -> /\ ev.l = (IF ev.t \in Labels THEN ev.t ELSE "NOT DEFINED") /\ ev.nc = Len(comps) + 1
                        /\ comps' = Append(comps, [n |-> ev.n, t |-> ev.l, l |-> ev.v]) /\ UNCHANGED <<fevars, dp>> /\ Tv0
    [] ev.e = "comps" -> ev.v = comps /\ (\A k \in DOMAIN ev.f : ev.f[k][2] = MD!Found(ev.f[k][1])) /\ SameM
    [] ev.e = "delcomps" -> ev.nc = 0 /\ comps' = <<>> /\ UNCHANGED <<fevars, dp>> /\ Tv0
    [] ev.e = "elnodes" -> /\ Len(ev.v) = Len(fm.els) /\ (\A k \in DOMAIN ev.v : ev.v[k].n = k /\ ev.v[k].s /\ ev.v[k].v = fm.els[k].nodes) /\ SameM
    [] ev.e = "make" -> MakeOK /\ SameM
    [] ev.e \in {"asm0", "cmpdump0", "bye"} -> SameM   \* (memory is watched: nothing is freed twice or used afterwards)
    [] ev.e = "dump" -> DumpOK /\ dp' = [d |-> Now, els |-> fm.els, con |-> con] /\ UNCHANGED <<fevars, comps>> /\ Tv0
    [] ev.e = "cmpdump" -> CmpOK /\ SameM
    [] OTHER -> Old
MInit == TInit /\ comps = <<>> /\ dp = <<>>
MNext == More /\ MStep /\ l' = l + 1
TSpecM == MInit /\ [][MNext]_mvars
=============================================================================
