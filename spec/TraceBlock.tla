---------------------------- MODULE TraceBlock ----------------------------
EXTENDS Block, TraceBase
Off(m, b) == SumSeq(SubSeq(P(m).sz, 1, b - 1))
DumpOK(m) == LET nb == Len(P(m).sz) IN
  /\ ev.rows = Rows(m) /\ ev.same
  /\ \A k \in DOMAIN ev.b : LET x == ev.b[k] IN      \* block (a, c): rows, columns, dense content
       /\ x.nr = P(m).sz[x.a] /\ x.nc = P(m).sz[x.c] /\ Len(x.d) = x.nr
       /\ \A i \in 1..x.nr : Len(x.d[i]) = x.nc /\ \A j \in 1..x.nc : x.d[i][j] = At(m, Off(m, x.a) + i, Off(m, x.c) + j)
  /\ {<<ev.b[k].a, ev.b[k].c>> : k \in DOMAIN ev.b} = {<<a, c>> \in (1..nb) \X (1..nb) : a <= c}
ShowOK(m) == /\ ev.rows = Rows(m)
             /\ {<<Off(m, ev.q[k][1]) + ev.q[k][3], Off(m, ev.q[k][2]) + ev.q[k][4], ev.q[k][5]>> : k \in DOMAIN ev.q}
                  = {<<x[1], x[2], bm[m].val[x]>> : x \in {x \in DOMAIN bm[m].val : bm[m].val[x] # 0}}
             /\ Cardinality({x \in DOMAIN bm[m].val : bm[m].val[x] # 0}) = Len(ev.q)
             /\ \A k \in DOMAIN ev.q : ev.q[k][3] \in 1..P(m).sz[ev.q[k][1]] /\ ev.q[k][4] \in 1..P(m).sz[ev.q[k][2]]
Same == UNCHANGED bvars
Step == CASE ev.e = "begin" -> pt' = NoF /\ bm' = NoF
          [] ev.e = "end" -> Same
          [] ev.e = "new" -> NewB(ev.m, ev.s)
          [] ev.e = "on" -> OnB(ev.m, ev.m2)
          [] ev.e = "ent" -> EntryB(ev.m, ev.i, ev.j)
          [] ev.e = "comp" -> CompB(ev.m) /\ ev.c
          [] ev.e = "addv" -> AddB(ev.m, ev.i, ev.j, ev.v)
          [] ev.e = "zero" -> ZeroB(ev.m)
          [] ev.e = "dump" -> DumpOK(ev.m) /\ Same
          [] ev.e = "show" -> ShowOK(ev.m) /\ Same
          [] ev.e = "try" -> Same /\ (ev.ok <=> bm[ev.m].alloc /\ Canon(ev.i, ev.j) \in P(ev.m).ent)
          [] ev.e = "rows" -> ev.v = Rows(ev.m) /\ Same
          [] OTHER -> FALSE
TInit == BInit /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<bvars, l>>
=============================================================================
