---------------------------- MODULE TraceDense ----------------------------
(* Recorded calls of the dense vectors and matrices against Dense. *)
EXTENDS Dense, TraceBase
vars == <<heap, vec, dm, l>>
U == 64
S6(x) == [i \in DOMAIN x |-> U * x[i]]
\* all the vectors which are there, except windows on released blocks, as they are after the call
Shown == LET w == {k \in 1..NV : vec'[k].h # 0 /\ heap'[vec'[k].h] # <<>>} IN
  /\ {ev.show[i].k : i \in DOMAIN ev.show} = w
  /\ \A i \in DOMAIN ev.show : LET v == vec'[ev.show[i].k] IN ev.show[i].x = [j \in 1..v.n |-> heap'[v.h][v.s + j]]
  /\ \A k \in 1..NV : (k \in {ev.init[i] : i \in DOMAIN ev.init}) <=> (vec'[k].h # 0)
VecOp == LET a == ev.a IN
  CASE ev.op = "new" -> New(a[1], S6(Tail(a)))
    [] ev.op = "view" -> View(a[1], a[2], a[3], a[4])
    [] ev.op = "clear" -> Clear(a[1])
    [] ev.op = "copy" -> Copy(a[1], a[2])
    [] ev.op = "move" -> Move(a[1], a[2])
    [] ev.op = "assign" -> Assign(a[1], a[2])
    [] ev.op = "addto" -> AddTo(a[1], a[2], 1)
    [] ev.op = "subto" -> AddTo(a[1], a[2], -1)
    [] ev.op = "add" -> Sum(a[1], a[2], a[3], 1)
    [] ev.op = "sub" -> Sum(a[1], a[2], a[3], -1)
    [] ev.op = "neg" -> Scale(a[1], a[2], -1, 1)
    [] ev.op = "times" -> Scale(a[1], a[2], a[3], 1)
    [] ev.op = "over" -> Scale(a[1], a[2], 1, a[3])
    [] ev.op = "set" -> Set(a[1], a[2], U * a[3])
    [] ev.op = "fill" -> Fill(a[1], U * a[2])
    [] ev.op = "text" -> New(a[1], Get(a[2]))
    [] ev.op = "same" -> UNCHANGED <<heap, vec>> /\ ev.r = Same(a[1], a[2], a[3])
    [] OTHER -> FALSE
Q(A, c) == Times(A, c)
Acc(r0, X, c) == LET f(i, j) == U * r0[i][j] + (U \div 4) * c * X[i][j] IN Make(R(r0), C(r0), f)
Close(x, y, t) == Abs(x - y) <= t
MatOp == LET A == ev.A IN
  CASE ev.op = "T" -> ev.R = Times(T(A), U)
    [] ev.op = "add" -> ev.R = Times(Plus(A, ev.B, 1), U)
    [] ev.op = "sub" -> ev.R = Times(Plus(A, ev.B, -1), U)
    [] ev.op = "neg" -> ev.R = Times(A, -U)
    [] ev.op = "scale" -> ev.R = Times(A, (U \div 4) * ev.c)
    [] ev.op = "mul" -> ev.R = Times(Mul(A, ev.B), U)
    [] ev.op = "dot" -> ev.R = Times(Mul(A, T(A)), U)
    [] ev.op = "det" -> ev.R = <<<<U * Det(A)>>>>
    [] ev.op = "cut" -> ev.R = Times(Cut(A, ev.c + 1, ev.d + 1), U)
    \* the inverse (times S) is one up to the rounding of its entries
    [] ev.op = "inv" -> LET P == Mul(A, ev.R) IN \A i, j \in 1..R(A) : LET f(k) == Abs(A[i][k]) IN Close(P[i][j], IF i = j THEN ev.S ELSE 0, 2 + SumTo(f, R(A)))
    [] ev.op = "eig" -> LET w == ev.w IN /\ w[1] >= w[2] /\ w[2] >= w[3] /\ w[1] + w[2] + w[3] = Tr(A) /\ w[1] * w[2] + w[1] * w[3] + w[2] * w[3] = Second(A) /\ w[1] * w[2] * w[3] = Det(A)
                                         /\ \A i \in 1..3 : Close(ev.R[1][i], ev.S * w[i], 1)
    [] ev.op = "sym" -> LET M == Sym(ev.n, A[1]) IN ev.R = Times(M, U) /\ ev.B = Times(M, U)
    [] ev.op = "symadd" -> ev.R = Times(Sym(ev.n, [k \in DOMAIN A[1] |-> A[1][k] + ev.B[1][k]]), U)
    [] ev.op = "btdb" -> ev.R = Acc(ev.R0, Mul(T(A), Mul(Sym(R(A), ev.B[1]), A)), ev.c)
    [] ev.op = "btv" -> ev.R = Acc(ev.R0, T(Mul(T(A), T(ev.B))), ev.c)
    [] ev.op = "bv" -> ev.R = Acc(ev.R0, T(Mul(A, T(ev.B))), ev.c)
    [] ev.op = "sbv" -> ev.R = Acc(ev.R0, T(Mul(Sym(Len(ev.B[1]), A[1]), T(ev.B))), ev.c)
    [] ev.op = "ab" -> ev.R = Acc(ev.R0, Mul(A, ev.B), ev.c)
    [] ev.op = "atb" -> ev.R = Acc(ev.R0, Mul(T(A), ev.B), ev.c)
    \* matrices as arguments are equal up to eps (quarters) in every entry
    [] ev.op = "near" -> ev.r = (\A i \in 1..R(A), j \in 1..C(A) : 4 * Abs(A[i][j] - ev.B[i][j]) <= ev.c)
    \* strain measures of the gradient A: C = A^T A (listed upper triangle), E added to R0, invariants, inverse (times S)
    [] ev.op = "strain" -> LET G == Mul(T(A), A)  J == Det(A)  up(M) == <<M[1][1], M[1][2], M[1][3], M[2][2], M[2][3], M[3][3]>> g == up(G) d == up(Unit(3)) IN
        /\ ev.E = [k \in 1..6 |-> U * ev.R0[1][k] + (U \div 2) * (g[k] - d[k])]
        /\ ev.I = <<U * Tr(G), U * Second(G), U * J>>
        /\ LET P == Mul(G, Sym(3, ev.N)) IN \A i, j \in 1..3 : LET f(k) == Abs(G[i][k]) IN Close(P[i][j], IF i = j THEN ev.S ELSE 0, 2 + SumTo(f, 3))
    [] OTHER -> FALSE
\* dynamic matrices
Zero(m, n) == LET f(i, j) == 0 IN Make(m, n, f)
Corner(A, m, n) == LET f(i, j) == IF i <= R(A) /\ j <= C(A) THEN A[i][j] ELSE 0 IN Make(m, n, f)
Over(A, B) == LET f(i, j) == IF i <= R(B) /\ j <= C(B) THEN B[i][j] ELSE A[i][j] IN Make(R(A), C(A), f)
DynOp == LET a == ev.a  D(k, M) == dm' = [dm EXCEPT ![k] = M] IN
  CASE ev.op = "resize" -> D(a[1], Zero(a[2], a[3]))
    [] ev.op = "fill" -> D(a[1], ev.A)
    [] ev.op = "zero" -> D(a[1], Zero(R(dm[a[1]]), C(dm[a[1]])))
    [] ev.op = "set" -> D(a[1], [dm[a[1]] EXCEPT ![a[2] + 1][a[3] + 1] = a[4]])
    [] ev.op = "assign" -> D(a[1], dm[a[2]])
    [] ev.op = "copy" -> D(a[1], dm[a[2]])
    [] ev.op = "cp" -> D(a[1], Over(dm[a[1]], ev.A))
    [] ev.op = "cpv" -> D(a[1], [i \in DOMAIN dm[a[1]] |-> IF i <= Len(ev.A[1]) THEN [dm[a[1]][i] EXCEPT ![a[2] + 1] = ev.A[1][i]] ELSE dm[a[1]][i]])
    [] ev.op = "to" -> UNCHANGED dm /\ ev.A = Corner(dm[a[1]], R(ev.A), C(ev.A))
    [] ev.op = "tov" -> UNCHANGED dm /\ \A i \in 1..Len(ev.A[1]) : ev.A[1][i] = IF i <= R(dm[a[1]]) THEN dm[a[1]][i][a[2] + 1] ELSE 0
    [] OTHER -> FALSE
Step ==
  CASE ev.e = "begin" -> heap' = <<>> /\ vec' = [k \in 1..NV |-> None] /\ dm' = [k \in 1..3 |-> <<<<0>>>>]
    [] ev.e = "vec" -> VecOp /\ Shown /\ UNCHANGED dm
    [] ev.e = "mat" -> MatOp /\ UNCHANGED dvars
    [] ev.e = "dyn" -> DynOp /\ ev.all = dm' /\ UNCHANGED <<heap, vec>>
    [] ev.e = "end" -> UNCHANGED dvars
    [] OTHER -> FALSE
TInit == heap = <<>> /\ vec = [k \in 1..NV |-> None] /\ dm = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
=============================================================================
