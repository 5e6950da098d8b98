------------------------------ MODULE MCEqs ------------------------------
(* Every order of calls to one solver with three matrices (Kind, Depth); every regular symmetric     *)
(* matrix of order 2 and 3 with small entries (Depth = 0).                                          *)
EXTENDS Eqs, Json
CONSTANTS Depth, Kinds
VARIABLES hist, rhs
op(o) == hist' = hist \o o
Es == <<<<2, <<<<1, 1, 4>>, <<2, 1, 1>>, <<2, 2, 3>>>>>>, <<2, <<<<1, 1, 2>>, <<1, 2, 3>>>>>>, <<3, <<<<1, 1, 5>>, <<1, 3, -2>>, <<2, 2, 1>>, <<3, 3, 4>>>>>>, <<2, <<<<2, 2, -1>>, <<1, 2, 2>>, <<1, 1, 7>>>>>>>>
Flat(es) == LET RECURSIVE F(_) F(k) == IF k > Len(es) THEN <<>> ELSE es[k] \o F(k + 1) IN F(1)
MatOp(m, n, es) == <<<<"mat", m, n, 100>> \o Flat(es)>>
B(n, k) == [i \in 1..n |-> ((3 * i + 5 * k) % 7) - 3]
(* ---- single matrices --------------------------------------------------------------------------- *)
Upper(n) == {ij \in (1..n) \X (1..n) : ij[1] <= ij[2]}
Det2(A) == A.a[<<1, 1>>] * A.a[<<2, 2>>] - A.a[<<1, 2>>] * A.a[<<2, 1>>]
Det3(A) == LET e(i, j) == A.a[<<i, j>>] IN
  e(1, 1) * (e(2, 2) * e(3, 3) - e(2, 3) * e(3, 2)) - e(1, 2) * (e(2, 1) * e(3, 3) - e(2, 3) * e(3, 1)) + e(1, 3) * (e(2, 1) * e(3, 2) - e(2, 2) * e(3, 1))
Det(A) == CASE A.n = 1 -> A.a[<<1, 1>>] [] A.n = 2 -> Det2(A) [] A.n = 3 -> Det3(A)
\* Cramer's rule: det x_c
Cramer(A, b, c) == Det([n |-> A.n, a |-> [ij \in DOMAIN A.a |-> IF ij[2] = c THEN b[ij[1]] ELSE A.a[ij]]])
Entries(v, n) == LET RECURSIVE F(_, _) F(i, j) == IF i > n THEN <<>> ELSE <<<<i, j, v[<<i, j>>]>>>> \o (IF j = n THEN F(i + 1, i + 1) ELSE F(i, j + 1)) IN F(1, 1)
Singles == {[n |-> 2, es |-> Entries(v, 2)] : v \in [Upper(2) -> -2..2]} \cup {[n |-> 3, es |-> Entries(v, 3)] : v \in [Upper(3) -> -1..1]}
Regular == {s \in Singles : Det([n |-> s.n, a |-> Full(s.n, s.es)]) # 0}
(* ------------------------------------------------------------------------------------------------ *)
Calls(s, m, k) == <<<<"solve", s, m>> \o B(mats[m].n, k)>>
Init ==
  /\ rhs = 0
  /\ IF Depth = 0 THEN \E s \in Regular :
          /\ mats = (1 :> [n |-> s.n, a |-> Full(s.n, s.es)]) /\ solvers = <<>>
          /\ hist = MatOp(1, s.n, s.es) \o <<<<"solver", 1, "gauss", 0>>, <<"solver", 2, "pardiso", 0>>>>
     ELSE \E k \in Kinds :
          /\ mats = [m \in 1..3 |-> [n |-> Es[m][1], a |-> Full(Es[m][1], Es[m][2])]]
          /\ solvers = (1 :> [k |-> k, pos |-> FALSE, f |-> 0, fa |-> <<>>])
          /\ hist = MatOp(1, Es[1][1], Es[1][2]) \o MatOp(2, Es[2][1], Es[2][2]) \o MatOp(3, Es[3][1], Es[3][2]) \o <<<<"solver", 1, k, 0>>>>
Next ==
  /\ rhs < (IF Depth = 0 THEN 1 ELSE Depth) /\ rhs' = rhs + 1
  /\ \/ Depth = 0 /\ UNCHANGED vars
        /\ op(LET n == mats[1].n IN <<<<"solve", 1, 1>> \o B(n, 0)>> \o <<<<"solve", 2, 1>> \o B(n, 0)>> \o <<<<"sub", 1, 1>> \o B(n, 1)>> \o <<<<"sub", 2, 1>> \o B(n, 2)>>)
     \/ Depth > 0 /\ \/ \E m \in DOMAIN mats : Factorize(1, m) /\ op(<<<<"fact", 1, m>>>>)
                     \/ \E m \in DOMAIN mats : Solve(1, m) /\ op(Calls(1, m, rhs))
                     \/ \E m \in DOMAIN mats : Substitute(1, m) /\ op(<<<<"sub", 1, m>> \o B(mats[m].n, rhs)>>)
                     \/ mats[1].a = Full(2, Es[1][2]) /\ SetMat(1, 2, Es[4][2]) /\ op(<<<<"vals", 1>> \o Flat(Es[4][2])>>)
                     \/ solvers[1].f # 0 /\ NewSolver(1, solvers[1].k, FALSE) /\ op(<<<<"drop", 1>>, <<"solver", 1, solvers[1].k, 0>>>>)
Spec == Init /\ [][Next]_<<vars, hist, rhs>>
Emit == (Depth = 0 \/ rhs' = Depth) => PrintT(<<"SCRIPT", ToJson(hist')>>)
(* ---- properties -------------------------------------------------------------------------------- *)
Round(p, q) == LET s == IF q < 0 THEN -1 ELSE 1 IN (2 * s * p + s * q) \div (2 * s * q)
Symmetric == \A m \in DOMAIN mats : \A ij \in DOMAIN mats[m].a : mats[m].a[ij] = mats[m].a[<<ij[2], ij[1]>>]
\* the judgement used on traces accepts the rounded exact solution of every regular system, and nothing a hundredth away
Sharp == \A m \in DOMAIN mats : LET A == mats[m]  b == B(A.n, rhs)  S == 1000  d == Det(A)
     x == [i \in 1..A.n |-> Round(S * Cramer(A, b, i), d)] IN
  d # 0 /\ IsSolution(A, b, x, S) /\ \A c \in 1..A.n : ~IsSolution(A, b, [x EXCEPT ![c] = @ + 10 * A.n], S) \/ \A i \in 1..A.n : 10 * A.n * Abs(A.a[<<i, c>>]) <= 2 * RowAbs(A, A.n, i) + 2
Factorized == \A s \in DOMAIN solvers : solvers[s].f # 0 => solvers[s].fa.n = mats[solvers[s].f].n
=============================================================================
