---------------------------- MODULE TraceProg ----------------------------
(* Runs of the nla3d program on files: the model in the file is a block which deforms isochorically, *)
(* X + (k/n) (H/d) X at step k of n; reactions, exit status and files follow from Hyper.             *)
EXTENDS Hyper, TraceBase
VARIABLES S, path, watch, dofs, refs, expect
vars == <<dim, pos, mat, els, S, path, watch, dofs, refs, expect, l>>
ne == Len(els)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* state at step k: k/n = k1/n1 in lowest terms
At(k) == LET g == Gcd(path.n, k)  k1 == k \div g  n1 == path.n \div g  q == path.d * n1  f(i, j) == q * Del(i, j) + k1 * path.H[i][j] IN St(M3(f), q)
Loc(e, n) == IF \E i \in 1..NN : e.n[i] = n THEN CHOOSE i \in 1..NN : e.n[i] = n ELSE 0
\* force on the watched nodes which holds the elements in the state, its rounding bound
Reaction(K, s, x) == LET f(w) == LET g(k) == LET i == Loc(els[k], watch[w]) IN IF i = 0 THEN 0 ELSE -Force(K, s, els[k], i)[x] IN SumN(g, ne) IN SumN(f, Len(watch))
Tol(s, x) == LET f(w) == LET g(k) == LET i == Loc(els[k], watch[w]) IN IF i = 0 THEN 0 ELSE ForceTol(s, els[k], i)[x] IN SumN(g, ne) IN SumN(f, Len(watch))
X(lab) == CASE lab = "UX" -> 1 [] lab = "UY" -> 2 [] lab = "UZ" -> 3
Near(v, w, t) == Abs(v - w) <= t + 2 + Abs(w) \div 20000
Rows == \A k \in (IF path.last = 1 THEN {0, path.n} ELSE 0..path.n) : LET s == TLCEval(At(k))  K == TLCEval(PK2(S, s, 0)) IN
  Len(ev.rows[k + 1]) = Len(ev.labels) /\ \A c \in DOMAIN ev.labels : LET x == X(ev.labels[c]) IN Near(ev.rows[k + 1][c], IF k = 0 THEN 0 ELSE Reaction(K, s, x), Tol(s, x))
Table == IF watch = <<>> THEN ev.rows = <<>>
  ELSE /\ Len(ev.rows) = path.n + 1
       /\ ev.labels = (IF dofs # <<>> THEN dofs ELSE IF dim = 3 THEN <<"UX", "UY", "UZ">> ELSE <<"UX", "UY">>)
       /\ Rows
\* the mean difference from the reference decides about the exit status
Status == IF refs = <<>> THEN ev.rc = 0
  ELSE IF Len(refs.v) # path.n + 1 THEN ev.rc # 0
  ELSE LET f(k) == Abs(refs.v[k] - ev.rows[k][1])  e == SumN(f, path.n + 1)  t == refs.thr * (path.n + 1)  u == 2 * path.n + 2 IN
    (refs.thr = 0 \/ e < t - u => ev.rc = 0) /\ (refs.thr > 0 /\ e > t + u => ev.rc # 0)
\* a refused run reports no results; files are there only if the solution had begun
RunOK == IF expect.x = "refuse" THEN ev.rc # 0 /\ ev.rows = <<>> /\ ev.vtk = expect.vtk
  ELSE (expect.x = "differs" => ev.rc # 0) /\ Table /\ Status /\ ev.vtk = expect.vtk
Keep == UNCHANGED <<dim, pos, mat, els, S, path, watch, dofs, refs, expect>>
Step ==
  CASE ev.e = "begin" -> dim' = 3 /\ pos' = <<>> /\ mat' = <<>> /\ els' = <<>> /\ S' = 1 /\ path' = <<>> /\ watch' = <<>> /\ dofs' = <<>> /\ refs' = <<>> /\ expect' = <<>>
    [] ev.e = "end" -> Keep
    [] ev.e = "nodes" -> dim' = ev.dim /\ pos' = ev.p /\ S' = ev.S /\ UNCHANGED <<mat, els, path, watch, dofs, refs, expect>>
    [] ev.e = "mat" -> mat' = [k |-> ev.k, c |-> ev.c] /\ UNCHANGED <<dim, pos, els, S, path, watch, dofs, refs, expect>>
    [] ev.e = "el" -> els' = Append(els, Elem(ev.n)) /\ UNCHANGED <<dim, pos, mat, S, path, watch, dofs, refs, expect>>
    [] ev.e = "path" -> path' = [H |-> ev.H, d |-> ev.d, n |-> ev.n, last |-> ev.last] /\ UNCHANGED <<dim, pos, mat, els, S, watch, dofs, refs, expect>>
    [] ev.e = "watch" -> watch' = ev.n /\ UNCHANGED <<dim, pos, mat, els, S, path, dofs, refs, expect>>
    [] ev.e = "dofs" -> dofs' = ev.d /\ UNCHANGED <<dim, pos, mat, els, S, path, watch, refs, expect>>
    [] ev.e = "refs" -> refs' = [v |-> ev.v, thr |-> ev.thr] /\ UNCHANGED <<dim, pos, mat, els, S, path, watch, dofs, expect>>
    [] ev.e = "expect" -> expect' = [x |-> ev.x, vtk |-> ev.vtk] /\ UNCHANGED <<dim, pos, mat, els, S, path, watch, dofs, refs>>
    [] ev.e = "run" -> RunOK /\ Keep
    [] OTHER -> FALSE
TInit == dim = 3 /\ pos = <<>> /\ mat = <<>> /\ els = <<>> /\ S = 1 /\ path = <<>> /\ watch = <<>> /\ dofs = <<>> /\ refs = <<>> /\ expect = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
=============================================================================
