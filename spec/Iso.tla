-------------------------------- MODULE Iso --------------------------------
(* Isoparametric lines, quadrangles and hexahedra: what their integration points, weights, shape      *)
(* functions and derivatives must add up to.  Everything is an integer: quantities are scaled by      *)
(* powers of two (shape functions are products of (1 +- r) / 2) and integrated exactly by Simpson's   *)
(* rule, which is exact up to degree 3 in each direction.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions
VARIABLES kind, pos, ord,   \* type of the element, nodes, order asked for
          made              \* [pos, n]: what the last makeJacob saw; <<>> before
isovars == <<kind, pos, ord, made>>

Dim(k) == CASE k = "LINE" -> 1 [] k = "QUAD" -> 2 [] OTHER -> 3
NN(k) == 2 ^ Dim(k)
Corners(k) == CASE k = "LINE" -> << <<-1>>, <<1>> >>
               [] k = "QUAD" -> << <<-1, -1>>, <<1, -1>>, <<1, 1>>, <<-1, 1>> >>
               [] OTHER -> << <<-1, -1, -1>>, <<1, -1, -1>>, <<1, 1, -1>>, <<-1, 1, -1>>, <<-1, -1, 1>>, <<1, -1, 1>>, <<1, 1, 1>>, <<-1, 1, 1>> >>
RECURSIVE Prod(_, _, _)
Prod(f(_), i, n) == IF i > n THEN 1 ELSE f(i) * Prod(f, i + 1, n)
RECURSIVE Add(_, _, _)
Add(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + Add(f, i + 1, n)
\* shape functions and derivatives at p / u (p integers), times 2^d u^d and 2^d u^(d-1)
Shape(k, n, p, u) == LET c == Corners(k)[n] f(i) == u + c[i] * p[i] IN Prod(f, 1, Dim(k))
Deriv(k, n, d, p, u) == LET c == Corners(k)[n] f(i) == IF i = d THEN c[i] ELSE u + c[i] * p[i] IN Prod(f, 1, Dim(k))
\* Simpson's points and weights; tables of what does not depend on the nodes
Kinds == {"LINE", "QUAD", "HEX"}
Pts(k) == CASE k = "LINE" -> {<<a>> : a \in -1..1} [] k = "QUAD" -> {<<a, b>> : a \in -1..1, b \in -1..1} [] OTHER -> {<<a, b, c>> : a \in -1..1, b \in -1..1, c \in -1..1}
Wt(p) == LET f(i) == IF p[i] = 0 THEN 4 ELSE 1 IN Prod(f, 1, Len(p))
ShapeT == [k \in Kinds |-> [p \in Pts(k) |-> [n \in 1..NN(k) |-> Shape(k, n, p, 1)]]]
DerivT == [k \in Kinds |-> [p \in Pts(k) |-> [n \in 1..NN(k) |-> [d \in 1..Dim(k) |-> Deriv(k, n, d, p, 1)]]]]
\* the Jacobian matrix at p, times 2^d; its determinant and cofactors
Jac(k, x, p) == LET t == DerivT[k][p] IN [i \in 1..Dim(k) |-> [j \in 1..Dim(k) |-> LET f(n) == t[n][i] * x[n][j] IN Add(f, 1, NN(k))]]
Sqrt(s) == CHOOSE r \in 0..1000 : r * r = s
Length(x) == LET d(j) == (x[2][j] - x[1][j]) * (x[2][j] - x[1][j]) IN Sqrt(d(1) + d(2) + d(3))
Minor(J, i, j) == LET a == IF i = 1 THEN 2 ELSE 1 b == IF i = 3 THEN 2 ELSE 3 c == IF j = 1 THEN 2 ELSE 1 d == IF j = 3 THEN 2 ELSE 3 IN J[a][c] * J[b][d] - J[a][d] * J[b][c]
Cof(k, J, i, j) == IF k = "QUAD" THEN (IF i = j THEN 1 ELSE -1) * J[3 - i][3 - j] ELSE (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Minor(J, i, j)
DetJ(k, J) == LET f(j) == J[1][j] * Cof(k, J, 1, j) IN Add(f, 1, Dim(k))
Det(k, x, p) == IF k = "LINE" THEN Length(x) ELSE DetJ(k, Jac(k, x, p))
\* an element: at every point [w: weight, d: determinant, c: cofactors]
Table(k, x) == TLCEval([p \in Pts(k) |-> LET J == TLCEval(Jac(k, x, p)) IN
   [w |-> Wt(p), d |-> Det(k, x, p), c |-> IF k = "LINE" THEN <<>> ELSE [i \in 1..Dim(k) |-> [j \in 1..Dim(k) |-> Cof(k, J, i, j)]]]])
SumOver(S, F) == FoldFunction(LAMBDA v, acc : v + acc, 0, [p \in S |-> F[p]])
\* the integrals: volume, shape functions, coordinates, derivatives of shape functions
Vol(k, T) == SumOver(Pts(k), [p \in Pts(k) |-> T[p].w * T[p].d])
IntN(k, T, n) == SumOver(Pts(k), [p \in Pts(k) |-> T[p].w * T[p].d * ShapeT[k][p][n]])
IntX(k, T, x, j) == LET f(n) == IntN(k, T, n) * x[n][j] IN Add(f, 1, NN(k))
IntD(k, T, n, j) == SumOver(Pts(k), [p \in Pts(k) |-> LET f(i) == T[p].c[i][j] * DerivT[k][p][n][i] IN T[p].w * Add(f, 1, Dim(k))])
Sub(a, b) == [j \in 1..3 |-> a[j] - b[j]]
Affine(k, x) == CASE k = "LINE" -> TRUE
                  [] k = "QUAD" -> \A j \in 1..2 : x[2][j] - x[1][j] = x[3][j] - x[4][j]
                  [] OTHER -> /\ \A q \in {<<4, 3>>, <<5, 6>>, <<8, 7>>} : Sub(x[q[2]], x[q[1]]) = Sub(x[2], x[1])
                              /\ \A q \in {<<2, 3>>, <<5, 8>>, <<6, 7>>} : Sub(x[q[2]], x[q[1]]) = Sub(x[4], x[1])
                              /\ \A q \in {<<2, 6>>, <<3, 7>>, <<4, 8>>} : Sub(x[q[2]], x[q[1]]) = Sub(x[5], x[1])
\* the degree of an integrand in each direction; a rule with n points in each is exact up to 2 n - 1
Degree(k, x, what) == IF Affine(k, x) THEN (IF what = "vol" THEN 0 ELSE 1)
                      ELSE IF k = "QUAD" THEN (IF what \in {"vol", "D"} THEN 1 ELSE 2) ELSE (IF what \in {"vol", "D"} THEN 2 ELSE 3)
Exact(k, x, what, n) == Degree(k, x, what) <= 2 * n - 1
\* integral of r^a s^b t^c over an affine element, times 2^(d^2-d) 15^d
Mono(k, T, a) == IF \E i \in 1..Dim(k) : a[i] % 2 = 1 THEN 0 ELSE LET f(i) == 15 \div (a[i] + 1) IN T[[i \in 1..Dim(k) |-> 0]].d * Prod(f, 1, Dim(k))

Clamp(o) == IF o < 1 THEN 1 ELSE IF o > 3 THEN 3 ELSE o
New(k, x) == kind' = k /\ pos' = x /\ ord' = 0 /\ made' = <<>>
Order(o) == ord' = o /\ UNCHANGED <<kind, pos, made>>
Move(n, p) == n \in DOMAIN pos /\ pos' = [pos EXCEPT ![n] = p] /\ UNCHANGED <<kind, ord, made>>
\* the Jacobians are made for the nodes and the order of that moment; the order is bounded for good
Make == made' = <<[pos |-> pos, n |-> Clamp(ord)]>> /\ ord' = Clamp(ord) /\ UNCHANGED <<kind, pos>>
=============================================================================
