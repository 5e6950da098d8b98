-------------------------------- MODULE Eqs --------------------------------
(* Solvers of linear equations.  mats[m] = [n, a] with a: <<i, j>> -> integer (symmetric, both       *)
(* orders); solvers[s] = [k (kind), pos (promised positive definite), f (number of the matrix       *)
(* factorized last, 0: none), fa (that matrix)].                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mats, solvers
vars == <<mats, solvers>>
Full(n, es) == [ij \in (1..n) \X (1..n) |->
  LET T == {k \in DOMAIN es : {es[k][1], es[k][2]} = {ij[1], ij[2]}} IN
  IF T = {} THEN 0 ELSE LET RECURSIVE Sum(_) Sum(U) == IF U = {} THEN 0 ELSE LET k == CHOOSE x \in U : TRUE IN es[k][3] + Sum(U \ {k}) IN Sum(T)]
\* a (new) matrix, or new values for one: repeated entries add up
SetMat(m, n, es) == mats' = (m :> [n |-> n, a |-> Full(n, es)]) @@ mats /\ UNCHANGED solvers
NewSolver(s, k, p) == solvers' = (s :> [k |-> k, pos |-> p, f |-> 0, fa |-> <<>>]) @@ solvers /\ UNCHANGED mats
Drop(s) == s \in DOMAIN solvers /\ solvers' = [x \in DOMAIN solvers \ {s} |-> solvers[x]] /\ UNCHANGED mats
Factorize(s, m) == solvers' = [solvers EXCEPT ![s].f = m, ![s].fa = mats[m]] /\ UNCHANGED mats
\* substituting is defined for the matrix factorized last, unchanged since
MaySubstitute(s, m) == s \in DOMAIN solvers /\ m \in DOMAIN mats /\ solvers[s].f = m /\ solvers[s].fa = mats[m]
Substitute(s, m) == MaySubstitute(s, m) /\ UNCHANGED vars
Solve(s, m) == Factorize(s, m)
(* ---- what a solution is ------------------------------------------------------------------------ *)
Abs(x) == IF x < 0 THEN -x ELSE x
RowDot(A, n, i, x) == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE A.a[<<i, k>>] * x[k] + Sum(k - 1) IN Sum(n)
RowAbs(A, n, i) == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Abs(A.a[<<i, k>>]) + Sum(k - 1) IN Sum(n)
\* x in units of 1/S, rounded: each row holds within what the rounding can make of it
IsSolution(A, b, x, S) == Len(x) = A.n /\ \A i \in 1..A.n : Abs(x[i]) < 2000000000 /\ Abs(RowDot(A, A.n, i, x) - S * b[i]) <= RowAbs(A, A.n, i) + 1
=============================================================================
