------------------------------- MODULE Hyper -------------------------------
(* Hyperelastic elements with displacements and one pressure per element: the hexahedron SOLID81     *)
(* (dim = 3) and the plane strain quadrilateral PLANE41 (dim = 2).  A state moves every point X to   *)
(* (A / d) X + t, with an integer matrix A whose determinant is a cube: then J^(1/3) and with it the *)
(* whole law is rational, and the state of strain is the same everywhere in an element of any shape. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dim, pos, mat, els
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumN(_, _)
SumN(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumN(f, n - 1)
\* S times n / m, rounded down
RECURSIVE Frac(_, _, _)
Frac(S, r, b) == IF b <= 2000000 THEN (S * r) \div b ELSE IF S = 1 THEN 0 ELSE LET r1 == 10 * r IN (r1 \div b) * (S \div 10) + Frac(S \div 10, r1 % b, b)
Sc(S, n, m) == LET a == IF m < 0 THEN -n ELSE n  b == Abs(m) IN S * (a \div b) + Frac(S, a % b, b)
(* ---- matrices ---------------------------------------------------------------------------------- *)
M3(f(_, _)) == <<<<f(1, 1), f(1, 2), f(1, 3)>>, <<f(2, 1), f(2, 2), f(2, 3)>>, <<f(3, 1), f(3, 2), f(3, 3)>>>>
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Mul(A, B) == LET f(i, j) == A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j] IN M3(f)
Tr(A) == A[1][1] + A[2][2] + A[3][3]
T(A) == LET f(i, j) == A[j][i] IN M3(f)
N1(i) == (i % 3) + 1
Cof(A) == LET f(i, j) == A[N1(i)][N1(j)] * A[N1(N1(i))][N1(N1(j))] - A[N1(i)][N1(N1(j))] * A[N1(N1(i))][N1(j)] IN M3(f)
Det(A) == LET c == Cof(A) IN A[1][1] * c[1][1] + A[1][2] * c[1][2] + A[1][3] * c[1][3]
Cbrt(D) == CHOOSE e \in 1..9 : e * e * e = D
IsCube(D) == D \in {1, 8, 27, 64}
(* ---- geometry ---------------------------------------------------------------------------------- *)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Faces == <<<<1, 4, 3, 2>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<4, 1, 5, 8>>>>
\* 12 times the volume under a bilinear face is the sum over the triangles of both of its triangulations
Tri(f) == <<<<f[1], f[2], f[3]>>, <<f[1], f[3], f[4]>>, <<f[1], f[2], f[4]>>, <<f[2], f[3], f[4]>>>>
Tris == LET a == Tri(Faces[1]) b == Tri(Faces[2]) c == Tri(Faces[3]) d == Tri(Faces[4]) e == Tri(Faces[5]) f == Tri(Faces[6]) IN a \o b \o c \o d \o e \o f
P(e, i) == pos[e.n[i]]
NN == IF dim = 3 THEN 8 ELSE 4
\* 12 * integral of the gradient of shape function i = derivative of 12 * volume with respect to node i
Grad12(e, i) ==
  IF dim = 3 THEN
    LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<0, 0, 0>> ELSE LET t == Tris[k] IN
          IF t[1] = i THEN Add(Cross(P(e, t[2]), P(e, t[3])), F(k - 1)) ELSE IF t[2] = i THEN Add(Cross(P(e, t[3]), P(e, t[1])), F(k - 1))
          ELSE IF t[3] = i THEN Add(Cross(P(e, t[1]), P(e, t[2])), F(k - 1)) ELSE F(k - 1) IN F(24)
  ELSE LET a == P(e, (i % 4) + 1) b == P(e, ((i + 2) % 4) + 1) IN <<6 * (a[2] - b[2]), 6 * (b[1] - a[1]), 0>>
Vol12(e) == IF dim = 3 THEN LET f(k) == LET t == Tris[k] IN Dot(P(e, t[1]), Cross(P(e, t[2]), P(e, t[3]))) IN SumN(f, 24)
          ELSE LET f(i) == LET a == P(e, i) b == P(e, (i % 4) + 1) IN 6 * (a[1] * b[2] - a[2] * b[1]) IN SumN(f, 4)
\* an element with its nodes n: gradients and volume are worked out once
Elem(n) == LET e == [n |-> n] IN [n |-> n, b |-> TLCEval([i \in 1..NN |-> Grad12(e, i)]), v |-> TLCEval(Vol12(e))]
B12(e, i) == e.b[i]
V12(e) == e.v
(* ---- the law ----------------------------------------------------------------------------------- *)
\* twice the coefficients of (I1-3), (I1-3)^2, (I1-3)^3, (I2-3), and the bulk modulus
Coef == CASE mat.k = "Neo-Hookean" -> <<mat.c[1], 0, 0, 0>> [] mat.k = "Biderman" -> <<2 * mat.c[1], 2 * mat.c[2], 2 * mat.c[3], 2 * mat.c[4]>>
          [] mat.k = "Mooney-Rivlin" -> <<2 * mat.c[1], 0, 0, 2 * mat.c[2]>>
Bulk == mat.c[Len(mat.c)]
\* what follows from A, d: e (cube root of det A), G = A^T A, its adjugate, its trace and second invariant
St(A, d) == LET G == TLCEval(Mul(T(A), A))  D == Det(A) IN [A |-> A, d |-> d, D |-> D, e |-> Cbrt(D), G |-> G, ad |-> Cof(G), t |-> Tr(G), q |-> (Tr(G) * Tr(G) - Tr(Mul(G, G))) \div 2]
Pow(x, n) == IF n = 0 THEN 1 ELSE LET RECURSIVE F(_) F(k) == IF k = 0 THEN 1 ELSE x * F(k - 1) IN F(n)
Del(i, j) == IF i = j THEN 1 ELSE 0
\* second Piola-Kirchhoff stress = the following three numerators over their denominators
Alpha1(s) == LET x == s.t - 3 * s.e * s.e  c == Coef IN c[1] * Pow(s.e, 4) + 2 * c[2] * x * s.e * s.e + 3 * c[3] * x * x      \* over e^4
Dev1(s, i, j) == s.d * s.d * (3 * Pow(s.e, 6) * Del(i, j) - s.t * s.ad[i][j])                                               \* over 3 e^8
Dev2(s, i, j) == s.d * s.d * (3 * Pow(s.e, 6) * (s.t * Del(i, j) - s.G[i][j]) - 2 * s.q * s.ad[i][j])                       \* over 3 e^10
S1(S, s, i, j) == Sc(S, Alpha1(s) * Dev1(s, i, j), 3 * Pow(s.e, 12))
S2(S, s, i, j) == Sc(S, Coef[4] * Dev2(s, i, j), 3 * Pow(s.e, 10))
PK2(S, s, p) == LET f(i, j) == S1(S, s, i, j) + S2(S, s, i, j) + Sc(S, p * s.ad[i][j], s.d * s.D) IN M3(f)
\* F S F^T / J, in units of 1 / S; rounding of the stress before: 3
Cauchy(K, s) == LET AK == Mul(Mul(s.A, K), T(s.A))  f(i, j) == (AK[i][j] * s.d) \div s.D IN M3(f)
CauchyTol(s) == LET f(i, j) == Abs(s.A[i][j]) IN LET B == M3(f) ones == <<<<3, 3, 3>>, <<3, 3, 3>>, <<3, 3, 3>>>> C == Mul(Mul(B, ones), T(B)) g(i, j) == (C[i][j] * s.d) \div s.D + 3 IN M3(g)
\* forces at node i of element e: minus the integral of P grad N_i, P = F S
Force(K, s, e, i) == LET b == TLCEval(B12(e, i)) AK == TLCEval(Mul(s.A, K)) f(x) == -(AK[x][1] * b[1] + AK[x][2] * b[2] + AK[x][3] * b[3]) \div (12 * s.d) IN <<f(1), f(2), f(3)>>
ForceTol(s, e, i) == LET b == TLCEval(B12(e, i)) w == Abs(b[1]) + Abs(b[2]) + Abs(b[3]) f(x) == (3 * w * (Abs(s.A[x][1]) + Abs(s.A[x][2]) + Abs(s.A[x][3]))) \div (12 * s.d) + 3 IN <<f(1), f(2), f(3)>>
Kup(S, s, e, i) == LET b == TLCEval(B12(e, i)) c == TLCEval(Cof(s.A)) f(x) == Sc(S, c[x][1] * b[1] + c[x][2] * b[2] + c[x][3] * b[3], 12 * s.d * s.d) IN <<f(1), f(2), f(3)>>
Kpp(S, e) == Sc(S, -V12(e), 12 * Bulk)
Fp(S, s, p, e) == Sc(S, (Pow(s.d, 3) - s.D) * V12(e), 12 * Pow(s.d, 3)) + Sc(S, p * V12(e), 12 * Bulk)
(* ---- results ----------------------------------------------------------------------------------- *)
Six(M) == <<M[1][1], M[1][2], M[1][3], M[2][2], M[2][3], M[3][3]>>
Energy(S, s) == LET x == s.t - 3 * s.e * s.e  c == Coef  e2 == s.e * s.e IN
  Sc(S, c[1] * x, 2 * e2) + Sc(S, c[2] * x * x, 2 * e2 * e2) + Sc(S, c[3] * x * x * x, 2 * e2 * e2 * e2) + Sc(S, c[4] * (s.q - 3 * e2 * e2), 2 * e2 * e2)
\* value and tolerance of each result the element reports
Results(S, s, p, e) == LET K == PK2(S, s, p)  cc(i, j) == Sc(S, s.G[i][j], s.d * s.d)  ee(i, j) == Sc(S, s.G[i][j] - s.d * s.d * Del(i, j), 2 * s.d * s.d)
    cst(n, v) == [k \in 1..n |-> v]  d3 == Pow(s.d, 3)  j == s.D - d3 IN
  [S_P |-> <<<<S * p>>, <<1>>>>, IC |-> <<<<Sc(S, s.t, s.d * s.d), Sc(S, s.q, Pow(s.d, 4)), Sc(S, s.D, d3)>>, cst(3, 1)>>,
   COUCHY |-> <<Six(Cauchy(K, s)), Six(CauchyTol(s))>>, PK2 |-> <<Six(K), cst(6, 4)>>, C |-> <<Six(M3(cc)), cst(6, 1)>>, E |-> <<Six(M3(ee)), cst(6, 1)>>]
  @@ (IF dim = 3 THEN [WU |-> <<<<Energy(S, s)>>, <<4>>>>, WP |-> <<<<Sc(S, Bulk * j * j, 2 * d3 * d3)>>, <<2>>>>, VOL |-> <<<<Sc(S, V12(e), 12)>>, <<1>>>>] ELSE <<>>)
=============================================================================
