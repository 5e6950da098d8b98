------------------------------ MODULE Elements ------------------------------
(* The linear finite elements: their matrices, loads and results in exact rational arithmetic.     *)
(* A rational is <<numerator, denominator>>; an element is [t, n, p] (type, nodes, parameters), see *)
(* harness/drv_elem.cpp.  pos[n] are the (integer) coordinates of node n.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pos, els

RECURSIVE SumN(_, _)
SumN(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumN(f, n - 1)
Dl(a, b) == IF a = b THEN 1 ELSE 0
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
RECURSIVE IRoot(_, _, _)
IRoot(x, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN IRoot(x, m, hi) ELSE IRoot(x, lo, m - 1)
Sqrt(x) == IRoot(x, 0, 20000)                              \* of perfect squares
HasSqrt(x) == Sqrt(x) * Sqrt(x) = x
P(e, i) == pos[e.n[i]]
\* simplex with d+1 nodes: determinant (d! times the volume) and determinant times the gradients of the shape functions
SDet(e, d) == LET a == Sub3(P(e, 2), P(e, 1)) b == Sub3(P(e, 3), P(e, 1)) IN IF d = 2 THEN a[1] * b[2] - a[2] * b[1] ELSE Dot(Sub3(P(e, 4), P(e, 1)), Cross(a, b))
SGrad(e, d) == LET a == Sub3(P(e, 2), P(e, 1)) b == Sub3(P(e, 3), P(e, 1)) IN
  IF d = 2 THEN <<<<a[2] - b[2], b[1] - a[1]>>, <<b[2], -b[1]>>, <<-a[2], a[1]>>>>
  ELSE LET c == Sub3(P(e, 4), P(e, 1)) g2 == Cross(b, c) g3 == Cross(c, a) g4 == Cross(a, b) IN
       <<<<-(g2[1] + g3[1] + g4[1]), -(g2[2] + g3[2] + g4[2]), -(g2[3] + g3[3] + g4[3])>>, g2, g3, g4>>

(* ---- isotropic elasticity: Lame constants <<lambda, mu, denominator>> for E and my = p/q -------- *)
Lame3(E, p, q) == <<2 * E * p * q, E * q * (q - 2 * p), 2 * (q + p) * (q - 2 * p)>>
LameStress(E, p, q) == <<2 * E * p * q, E * q * (q - p), 2 * (q + p) * (q - p)>>
TriLame(e) == IF e.p[1] = 0 THEN Lame3(e.p[2], e.p[3], e.p[4]) ELSE LameStress(e.p[2], e.p[3], e.p[4])
TetLame(e) == Lame3(e.p[1], e.p[2], e.p[3])
\* the same formula in 2 and 3 dimensions: volume * (lambda g_ia g_jb + mu (g_ib g_ja + delta_ab g_i.g_j))
ElasticK(G, d, lm, i, a, j, b) == LET gg(c) == G[i][c] * G[j][c] IN
  lm[1] * G[i][a] * G[j][b] + lm[2] * (G[i][b] * G[j][a] + Dl(a, b) * SumN(gg, d))
Fact(d) == IF d = 2 THEN 2 ELSE 6

Axis(dof) == CASE dof = "UX" -> 1 [] dof = "UY" -> 2 [] dof = "UZ" -> 3 [] OTHER -> 0
DofsOf(e) == CASE e.t \in {"TRUSS3", "TETRA0", "INTER0", "INTER3"} -> {"UX", "UY", "UZ"} [] e.t = "TRI" -> {"UX", "UY"} [] OTHER -> {"TEMP"}
Keys == UNION {{<<els[k].n[i], d>> : i \in DOMAIN els[k].n, d \in DofsOf(els[k])} : k \in DOMAIN els}

(* ---- bilinear quadrilateral: corner signs, edge sums ----------------------------------------- *)
Xi(i) == <<-1, 1, 1, -1>>[i]
Et(i) == <<-1, -1, 1, 1>>[i]
Cr2(a, b) == a[1] * b[2] - a[2] * b[1]
QSum(e, w(_)) == LET s(k) == LET t(i) == w(i) * P(e, i)[k] IN SumN(t, 4) IN <<s(1), s(2)>>
QC(e) == LET x(i) == Xi(i) y(i) == Et(i) h(i) == Xi(i) * Et(i) IN LET e1 == QSum(e, x) e2 == QSum(e, y) hh == QSum(e, h) IN <<Cr2(e1, e2), Cr2(e1, hh), Cr2(hh, e2)>>
Parallelogram(e) == LET h(i) == Xi(i) * Et(i) IN QSum(e, h) = <<0, 0>>
QOrd(e) == IF e.p[5] = 0 THEN 2 ELSE IF e.p[5] > 3 THEN 3 ELSE e.p[5]
\* 2 * integral of the gradient of shape function i
QB(e, i) == LET nx == P(e, (i % 4) + 1) pv == P(e, ((i + 2) % 4) + 1) IN <<nx[2] - pv[2], pv[1] - nx[1]>>
QuadK(e, i, j) ==
  IF QOrd(e) = 1 THEN <<e.p[1] * (QB(e, i)[1] * QB(e, j)[1] + QB(e, i)[2] * QB(e, j)[2]), QC(e)[1]>>       \* area = c0/4
  ELSE LET A == Sub3(P(e, 2), P(e, 1)) B == Sub3(P(e, 4), P(e, 1)) AA == A[1] * A[1] + A[2] * A[2] BB == B[1] * B[1] + B[2] * B[2] AB == A[1] * B[1] + A[2] * B[2] IN
    <<e.p[1] * (BB * Xi(i) * Xi(j) * (3 + Et(i) * Et(j)) - 3 * AB * (Xi(i) * Et(j) + Et(i) * Xi(j)) + AA * Et(i) * Et(j) * (3 + Xi(i) * Xi(j))), 12 * Cr2(A, B)>>
QuadCap(e, i, j) == LET c == QC(e) rc == e.p[2] * e.p[3] IN
  IF QOrd(e) = 1 THEN <<rc * c[1], 64>>
  ELSE <<rc * (c[1] * (3 + Xi(i) * Xi(j)) * (3 + Et(i) * Et(j)) + c[2] * (Xi(i) + Xi(j)) * (3 + Et(i) * Et(j)) + c[3] * (3 + Xi(i) * Xi(j)) * (Et(i) + Et(j))), 576>>
QuadF(e, i) == LET c == QC(e) IN IF QOrd(e) = 1 THEN <<e.p[4] * c[1], 16>> ELSE <<e.p[4] * (3 * c[1] + c[2] * Xi(i) + c[3] * Et(i)), 48>>

Len3(e) == LET d == Sub3(P(e, 2), P(e, 1)) IN Sqrt(Dot(d, d))
LOrd(e) == IF e.p[5] = 0 THEN 2 ELSE e.p[5]
LineK(e, i, j) == IF LOrd(e) = 1 THEN <<e.p[2] * Len3(e), 4>> ELSE <<e.p[2] * Len3(e) * (1 + Dl(i, j)), 6>>
LineT(e) == <<e.p[3], IF e.p[4] = 0 THEN e.p[3] ELSE e.p[4]>>     \* the second temperature defaults to the first
\* spring stiffness normal and tangential to a direction n (integers): <<numerator, denominator>>
Spring(kn, ks, n, a, b) == <<(kn - ks) * n[a] * n[b] + ks * Dl(a, b) * Dot(n, n), Dot(n, n)>>
I3N(e) == Cross(Sub3(P(e, 2), P(e, 1)), Sub3(P(e, 3), P(e, 1)))
RECURSIVE GCD(_, _)
Iabs(x) == IF x < 0 THEN -x ELSE x
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Reduce(n) == LET g == GCD(Iabs(n[1]), GCD(Iabs(n[2]), Iabs(n[3]))) IN <<n[1] \div g, n[2] \div g, n[3] \div g>>

\* entry of the stiffness (conductivity) matrix of e for local nodes i, j and directions a, b
KOf(e, i, a, j, b) ==
  CASE e.t = "TRUSS3" -> LET d == Sub3(P(e, 2), P(e, 1)) L == Sqrt(Dot(d, d)) IN <<(IF i = j THEN 1 ELSE -1) * e.p[1] * e.p[2] * d[a] * d[b], L * L * L>>
    [] e.t = "TRI" -> LET lm == TriLame(e) IN <<ElasticK(SGrad(e, 2), 2, lm, i, a, j, b), 2 * SDet(e, 2) * lm[3]>>
    [] e.t = "TETRA0" -> LET lm == TetLame(e) IN <<ElasticK(SGrad(e, 3), 3, lm, i, a, j, b), 6 * SDet(e, 3) * lm[3]>>
    [] e.t = "TETRA1" -> LET G == SGrad(e, 3) IN <<e.p[1] * (G[i][1] * G[j][1] + G[i][2] * G[j][2] + G[i][3] * G[j][3]), 6 * SDet(e, 3)>>
    [] e.t = "QUADTH" -> QuadK(e, i, j)
    [] e.t = "LINETH" -> LineK(e, i, j)
    [] e.t = "INTER0" -> LET s == Spring(e.p[1], e.p[2], <<e.p[3], e.p[4], e.p[5]>>, a, b) IN <<(IF i = j THEN 1 ELSE -1) * s[1], s[2]>>
    [] e.t = "INTER3" -> LET N == I3N(e) r == Reduce(N) s == Spring(e.p[1], e.p[2], r, a, b) ii == (i - 1) % 3 jj == (j - 1) % 3 IN
                           <<(IF (i <= 3) = (j <= 3) THEN 1 ELSE -1) * Sqrt(Dot(N, N)) * (1 + Dl(ii, jj)) * s[1], 24 * s[2]>>
COf(e, i, j) == IF e.t = "QUADTH" THEN QuadCap(e, i, j) ELSE <<0, 1>>
\* initial stress of a tetrahedron (thermal, given strains or stresses): component ab, times 16 * denominator
Voigt(a, b) == IF a = b THEN a ELSE IF {a, b} = {1, 2} THEN 4 ELSE IF {a, b} = {2, 3} THEN 5 ELSE 6
\* initial strains in units of 1/16 (shear: gamma)
Eps16(e, v) == (IF e.p[5] = 1 THEN 2 * e.p[5 + v] ELSE 0) + (IF v <= 3 THEN 8 * e.p[4] ELSE 0)
Sig0(e, a, b) == LET lm == TetLame(e) tr == Eps16(e, 1) + Eps16(e, 2) + Eps16(e, 3) IN
  lm[1] * Dl(a, b) * tr + lm[2] * (IF a = b THEN 2 * Eps16(e, a) ELSE Eps16(e, Voigt(a, b))) + (IF e.p[5] = 2 THEN 16 * lm[3] * e.p[5 + Voigt(a, b)] ELSE 0)
FOf(e, i, a) ==
  CASE e.t = "TETRA0" -> LET G == SGrad(e, 3) t(b) == G[i][b] * Sig0(e, a, b) IN <<SumN(t, 3), 6 * 16 * TetLame(e)[3]>>
    [] e.t = "QUADTH" -> QuadF(e, i)
    [] e.t = "LINETH" -> LET T == LineT(e) k(j) == LineK(e, i, j)[1] * T[j] IN
         <<(LineK(e, 1, 1)[2] \div 2) * e.p[1] * Len3(e) + SumN(k, 2), LineK(e, 1, 1)[2]>>
    [] OTHER -> <<0, 1>>

(* ---- results of a state U: function of keys --------------------------------------------------- *)
GradU(e, d, U, a, b) == LET G == SGrad(e, d) t(i) == G[i][b] * U[<<e.n[i], <<"UX", "UY", "UZ">>[a]>>] IN SumN(t, d + 1)   \* times SDet
\* strain components (engineering shear) times SDet
EpsN(e, d, U, v) == IF v <= d THEN GradU(e, d, U, v, v)
                    ELSE LET ab == IF d = 2 THEN <<1, 2>> ELSE <<<<1, 2>>, <<2, 3>>, <<1, 3>>>>[v - 3] IN GradU(e, d, U, ab[1], ab[2]) + GradU(e, d, U, ab[2], ab[1])
SigN(e, d, lm, U, v) == LET t(k) == EpsN(e, d, U, k) IN IF v <= d THEN lm[1] * SumN(t, d) + 2 * lm[2] * EpsN(e, d, U, v) ELSE lm[2] * EpsN(e, d, U, v)
Rat(seq, den) == [k \in DOMAIN seq |-> <<seq[k], den>>]
Jump(e, U, a) == LET d == <<"UX", "UY", "UZ">>[a] IN
  IF e.t = "INTER0" THEN U[<<e.n[2], d>>] - U[<<e.n[1], d>>] ELSE LET t(i) == U[<<e.n[i + 3], d>>] - U[<<e.n[i], d>>] IN SumN(t, 3)
\* name -> components (rationals); what is not listed is not specified here
Results(e, U) ==
  CASE e.t = "TRUSS3" -> LET d == Sub3(P(e, 2), P(e, 1)) t(a) == d[a] * Jump([e EXCEPT !.t = "INTER0"], U, a) IN [S |-> <<<<e.p[1] * SumN(t, 3), Dot(d, d)>>>>]
    [] e.t = "TRI" -> LET lm == TriLame(e) D == SDet(e, 2) IN [eps |-> [v \in 1..3 |-> <<EpsN(e, 2, U, v), D>>], sig |-> [v \in 1..3 |-> <<SigN(e, 2, lm, U, v), D * lm[3]>>]]
    [] e.t = "TETRA0" -> LET lm == TetLame(e) D == SDet(e, 3) c == [VOL |-> <<<<D, 6>>>>, C |-> [v \in 1..6 |-> <<EpsN(e, 3, U, v), D>>], TSTRAIN |-> [v \in 1..6 |-> <<IF v <= 3 THEN e.p[4] ELSE 0, 2>>]] IN
                         IF e.p[4] = 0 /\ e.p[5] = 0 THEN c @@ [E |-> [v \in 1..6 |-> <<SigN(e, 3, lm, U, v), D * lm[3]>>]] ELSE c
    [] e.t = "TETRA1" -> LET G == SGrad(e, 3) D == SDet(e, 3) g(b) == LET t(i) == G[i][b] * U[<<e.n[i], "TEMP">>] IN SumN(t, 4) IN
                         [VOL |-> <<<<D, 6>>>>, GRADT |-> [b \in 1..3 |-> <<g(b), D>>], FLUX |-> [b \in 1..3 |-> <<-e.p[1] * g(b), D>>]]
    [] e.t = "QUADTH" -> [vol |-> <<<<QC(e)[1], 4>>>>]
    [] e.t = "LINETH" -> [vol |-> <<<<Len3(e), 1>>>>]
    [] e.t = "INTER0" -> [C |-> [v \in 1..6 |-> <<IF v <= 3 THEN Jump(e, U, v) ELSE 0, 1>>]]
    [] e.t = "INTER3" -> LET N == I3N(e) A == Sqrt(Dot(N, N)) r == Reduce(N) f(a) == LET t(b) == Spring(e.p[1], e.p[2], r, a, b)[1] * Jump(e, U, b) IN SumN(t, 3) IN
                         [C |-> [v \in 1..6 |-> <<IF v <= 3 THEN A * Jump(e, U, v) ELSE 0, 6>>], E |-> [v \in 1..6 |-> <<IF v <= 3 THEN A * f(v) ELSE 0, 6 * Dot(r, r)>>]]
=============================================================================
