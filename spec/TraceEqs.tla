------------------------------ MODULE TraceEqs ------------------------------
(* Recorded calls of equation solvers against Eqs.                                                  *)
EXTENDS Eqs, TraceBase
Same(m) == Len(ev.A) = mats[m].n /\ \A i, j \in 1..mats[m].n : ev.A[i][j] = mats[m].a[<<i, j>>]
Good == IsSolution(mats[ev.m], ev.b, ev.x, ev.S) /\ Same(ev.m)
Step ==
  CASE ev.e = "begin" -> mats' = <<>> /\ solvers' = <<>>
    [] ev.e = "end" -> UNCHANGED vars
    [] ev.e = "mat" -> SetMat(ev.m, ev.n, ev.a)
    [] ev.e = "solver" -> NewSolver(ev.s, ev.k, ev.pos)
    [] ev.e = "drop" -> Drop(ev.s)
    [] ev.e = "fact" -> Factorize(ev.s, ev.m)
    [] ev.e = "sub" -> Substitute(ev.s, ev.m) /\ Good
    [] ev.e = "solve" -> Solve(ev.s, ev.m) /\ Good
    [] OTHER -> FALSE
TInit == mats = <<>> /\ solvers = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
