---------------------------- MODULE TraceHyper ----------------------------
(* Recorded states of hyperelastic meshes against Hyper.                                            *)
EXTENDS Hyper, TraceBase
VARIABLES S, last
vars == <<dim, pos, mat, els, S, last, l>>
ne == Len(els)
NK == Len(pos) * dim
Ix(n, x) == (n - 1) * dim + x
Loc(e, n) == IF \E i \in 1..NN : e.n[i] = n THEN CHOOSE i \in 1..NN : e.n[i] = n ELSE 0
\* the events carry vectors in the order node by node, coordinate by coordinate; then the elements
Get(r, name) == LET I == {i \in DOMAIN r : r[i][1] = name} IN IF I = {} THEN <<>> ELSE r[CHOOSE i \in I : TRUE][2]
\* the mean over an element lies between the values at its integration points
Between(q) == Len(q[3]) = Len(q[2]) /\ Len(q[4]) = Len(q[2]) /\ \A i \in DOMAIN q[2] : q[3][i] - 1 <= q[2][i] /\ q[2][i] <= q[4][i] + 1
Sane(r) == \A k \in DOMAIN r : Get(r[k], "odd") = <<>> /\ \A i \in DOMAIN r[k] : Between(r[k][i])
ResultsOK(r, s, ps) == Sane(r) /\ Len(r) = ne /\ (\A k \in DOMAIN r : \A i \in DOMAIN r[k] : \A j \in DOMAIN r[k][i][2] : r[k][i][4][j] - r[k][i][3][j] <= 1) /\ \A k \in 1..ne : LET w == Results(S, s, ps[k], els[k]) IN
  \A nm \in DOMAIN w : LET g == Get(r[k], nm) IN Len(g) = Len(w[nm][1]) /\ \A i \in DOMAIN g : Abs(g[i] - w[nm][1][i]) <= w[nm][2][i]
AffineOK == LET s == TLCEval(St(ev.A, ev.d))  Ks == TLCEval([k \in 1..ne |-> PK2(S, s, ev.p[k])]) IN
  /\ ResultsOK(ev.r, s, ev.p)
  /\ \A n \in DOMAIN pos : \A x \in 1..dim :
       LET f(k) == LET i == Loc(els[k], n) IN IF i = 0 THEN 0 ELSE Force(Ks[k], s, els[k], i)[x]
           t(k) == LET i == Loc(els[k], n) IN IF i = 0 THEN 0 ELSE ForceTol(s, els[k], i)[x] IN Abs(ev.F[Ix(n, x)] - SumN(f, ne)) <= SumN(t, ne) + 1
  /\ \A k \in 1..ne : Abs(ev.Fp[k] - Fp(S, s, ev.p[k], els[k])) <= 3 /\ Abs(ev.Kpp[k] - Kpp(S, els[k])) <= 2
       /\ \A n \in DOMAIN pos : \A x \in 1..dim : LET i == Loc(els[k], n) IN Abs(ev.Kup[k][Ix(n, x)] - (IF i = 0 THEN 0 ELSE Kup(S, s, els[k], i)[x])) <= 2
(* ---- any state: balance ------------------------------------------------------------------------ *)
Cur(n, x) == 100 * pos[n][x] + ev.u[Ix(n, x)]
Balanced == LET n == Len(pos) IN
  /\ \A x \in 1..dim : LET f(i) == ev.F[Ix(i, x)] IN Abs(SumN(f, n)) <= n
  /\ \A x \in (IF dim = 3 THEN 1..3 ELSE {3}) : LET a == N1(x) b == N1(N1(x)) f(i) == Cur(i, a) * ev.F[Ix(i, b)] - Cur(i, b) * ev.F[Ix(i, a)] g(i) == Abs(Cur(i, a)) + Abs(Cur(i, b)) IN Abs(SumN(f, n)) <= SumN(g, n)
(* ---- along a direction: the tangent is the derivative of the forces, the forces that of the energy  *)
Consistent == \A k \in DOMAIN ev.kv : Abs(ev.kv[k] + ev.fd[k]) <= 3 + Abs(ev.kv[k]) \div 2000
Potential == dim = 3 => LET f(k) == ev.dw[k] + last.p[k] * ev.dj[k]  g(k) == Abs(ev.dw[k]) \div 1000 + Abs(last.p[k]) * (1 + Abs(ev.dj[k]) \div 1000) + 2 IN Abs(ev.fv + SumN(f, ne)) <= SumN(g, ne) + 2
\* the volume equation does not depend on the law
Volume == dim = 3 => \A k \in 1..ne : LET dp == ev.v[NK + k]  w == ev.fd[NK + k] + ev.dj[k] - Sc(100, dp * V12(els[k]), 12 * Bulk) IN Abs(w) <= 4 + Abs(ev.dj[k]) \div 1000
(* ---- a rotated state --------------------------------------------------------------------------- *)
FromSix(v) == <<<<v[1], v[2], v[3]>>, <<v[2], v[4], v[5]>>, <<v[3], v[5], v[6]>>>>
Rotated == LET Q == ev.Q  q == ev.q IN
  /\ Sane(ev.r)
  /\ \A n \in DOMAIN pos : \A x \in 1..dim : LET f(y) == Q[x][y] * last.F[Ix(n, y)] g(y) == Abs(Q[x][y]) IN Abs(q * ev.F[Ix(n, x)] - SumN(f, dim)) <= q + SumN(g, dim)
  /\ \A k \in 1..ne :
       /\ Abs(ev.Fp[k] - last.Fp[k]) <= 1
       /\ \A n \in DOMAIN pos : \A x \in 1..dim : LET f(y) == Q[x][y] * last.Kup[k][Ix(n, y)] g(y) == Abs(Q[x][y]) IN Abs(q * ev.Kup[k][Ix(n, x)] - SumN(f, dim)) <= q + SumN(g, dim)
       /\ \A nm \in {"S_P", "IC", "PK2", "C", "E", "WU", "WP", "VOL"} : LET a == Get(ev.r[k], nm) b == Get(last.r[k], nm) IN Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 1
       /\ LET R == Mul(Mul(Q, FromSix(Get(last.r[k], "COUCHY"))), T(Q))  c == FromSix(Get(ev.r[k], "COUCHY")) IN \A x, y \in 1..3 : Abs(q * q * c[x][y] - R[x][y]) <= 4 * q * q + 4
(* ---- a solved patch: the outer nodes moved by A / d, everything follows ------------------------ *)
Patch == LET G == TLCEval(Mul(T(ev.A), ev.A))  D == TLCEval(Det(ev.A))  d3 == Pow(ev.d, 3) IN
  /\ Sane(ev.r)
  /\ \A n \in DOMAIN pos : \A x \in 1..dim : LET u == ev.A[x][1] * pos[n][1] + ev.A[x][2] * pos[n][2] + ev.A[x][3] * pos[n][3] - ev.d * pos[n][x] IN Abs(ev.u[Ix(n, x)] - Sc(1000, u, ev.d)) <= 2
  /\ \A k \in 1..ne : Abs(ev.p[k] - Sc(1000, Bulk * (D - d3), d3)) <= 3 + Bulk \div 10
  /\ \A k \in 1..ne : LET g == Get(ev.r[k], "C") IN \A i, j \in 1..3 : Abs(FromSix(g)[i][j] - Sc(S, G[i][j], ev.d * ev.d)) <= 3
State == [F |-> ev.F, Fp |-> ev.Fp, Kup |-> ev.Kup, r |-> ev.r, p |-> ev.p]
Step ==
  CASE ev.e = "begin" -> dim' = 3 /\ pos' = <<>> /\ mat' = <<>> /\ els' = <<>> /\ S' = 1 /\ last' = <<>>
    [] ev.e = "end" -> UNCHANGED <<dim, pos, mat, els, S, last>>
    [] ev.e = "nodes" -> dim' = ev.dim /\ pos' = ev.p /\ S' = ev.S /\ els' = <<>> /\ last' = <<>> /\ UNCHANGED mat
    [] ev.e = "mat" -> mat' = [k |-> ev.k, c |-> ev.c] /\ UNCHANGED <<dim, pos, els, S, last>>
    [] ev.e = "el" -> els' = Append(els, Elem(ev.n)) /\ UNCHANGED <<dim, pos, mat, S, last>>
    [] ev.e = "affine" -> AffineOK /\ last' = State /\ UNCHANGED <<dim, pos, mat, els, S>>
    [] ev.e = "state" -> Sane(ev.r) /\ Balanced /\ last' = State /\ UNCHANGED <<dim, pos, mat, els, S>>
    [] ev.e = "along" -> Consistent /\ Potential /\ Volume /\ UNCHANGED <<dim, pos, mat, els, S, last>>
    [] ev.e = "rotated" -> Rotated /\ UNCHANGED <<dim, pos, mat, els, S, last>>
    [] ev.e = "patch" -> Patch /\ UNCHANGED <<dim, pos, mat, els, S, last>>
    [] OTHER -> FALSE
TInit == dim = 3 /\ pos = <<>> /\ mat = <<>> /\ els = <<>> /\ S = 1 /\ last = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
=============================================================================
