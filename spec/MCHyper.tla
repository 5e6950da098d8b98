------------------------------ MODULE MCHyper ------------------------------
(* Every short sequence of elementary deformations (shears before or behind, quarter turns, growth)  *)
(* of a set of elements, with every kind of material: the law of Hyper is what a hyperelastic law     *)
(* has to be, and each sequence is emitted as a script for the code.                                  *)
EXTENDS Hyper, Json
CONSTANTS Depth, Dims
VARIABLES A, d, p, hist
mvars == <<dim, pos, mat, els, A, d, p, hist>>
Mats == {[k |-> "Neo-Hookean", c |-> <<2, 10>>], [k |-> "Biderman", c |-> <<1, 1, 0, 1, 3>>], [k |-> "Biderman", c |-> <<1, -1, 1, 0, 50>>], [k |-> "Mooney-Rivlin", c |-> <<1, 2, 10>>]}
Hexes == {<<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>>>,
  <<<<0, 0, 0>>, <<4, 0, 0>>, <<4, 3, 0>>, <<1, 4, 0>>, <<0, 1, 4>>, <<3, 0, 5>>, <<4, 4, 4>>, <<0, 3, 3>>>>}
Quads == {<<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>>>, <<<<0, 0, 0>>, <<4, 1, 0>>, <<3, 4, 0>>, <<-1, 3, 0>>>>, <<<<2, 1, 0>>, <<0, 3, 0>>, <<-3, 0, 0>>, <<0, -2, 0>>>>}
Shears == LET O == IF dim = 3 THEN {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 1>>, <<1, 3>>} ELSE {<<1, 2>>, <<2, 1>>} IN
  {LET f(i, j) == IF <<i, j>> = o THEN g ELSE Del(i, j) IN M3(f) : o \in O, g \in {-1, 1}}
Turns == LET x == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>> y == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>> IN IF dim = 3 THEN {x, y, Mul(x, y)} ELSE {x}
Stretch == <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>
Small(B, b) == LET s == St(B, b) IN s.t <= (IF s.e = 1 THEN 8 ELSE 24)
FlatA(B) == B[1] \o B[2] \o B[3]
Op(B, b, pp) == hist' = Append(hist, <<"affine">> \o FlatA(B) \o <<b, 1, -2, IF dim = 3 THEN 3 ELSE 0, pp>>)
Init ==
  /\ dim \in Dims
  /\ pos \in (IF dim = 3 THEN Hexes ELSE Quads)
  /\ mat \in Mats
  /\ els = <<Elem(IF dim = 3 THEN <<1, 2, 3, 4, 5, 6, 7, 8>> ELSE <<1, 2, 3, 4>>)>>
  /\ p = 0
  /\ \E k \in 1..2 : d = k /\ A \in (IF dim = 3 THEN {Id} ELSE {<<<<k, 0, 0>>, <<0, k, 0>>, <<0, 0, k>>>>} \cup (IF k = 2 THEN {<<<<4, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>} ELSE {}))
  /\ hist = <<<<"nodes", 1000, dim, Len(pos)>> \o (LET RECURSIVE F(_) F(k) == IF k > Len(pos) THEN <<>> ELSE pos[k] \o F(k + 1) IN F(1)), <<"mat", mat.k>> \o mat.c, <<"el">> \o els[1].n, <<"init">>>>
Go(B, pp) == Small(B, d) /\ A' = B /\ p' = pp /\ Op(B, d, pp) /\ UNCHANGED <<dim, pos, mat, els, d>>
Next ==
  /\ Len(hist) < 4 + Depth
  /\ \/ \E E \in Shears : Go(Mul(E, A), p) \/ Go(Mul(A, E), p)
     \/ \E Q \in Turns : Go(Mul(Q, A), 4 - p)
     \/ dim = 3 /\ Det(A) = 1 /\ Go(Mul(Stretch, A), p - 3)
Spec == Init /\ [][Next]_mvars
Emit == Len(hist') = 4 + Depth => PrintT(<<"SCRIPT", ToJson(hist')>>)
(* ---- the law ----------------------------------------------------------------------------------- *)
s0 == St(A, d)
SumIJ(f(_, _)) == f(1, 1) + f(1, 2) + f(1, 3) + f(2, 1) + f(2, 2) + f(2, 3) + f(3, 1) + f(3, 2) + f(3, 3)
Cube == IsCube(Det(A)) /\ s0.e * s0.e * s0.e = s0.D
\* the stress of change of shape does no work against growth, and is symmetric
Deviatoric == LET s == TLCEval(s0) f(i, j) == Dev1(s, i, j) * s.G[i][j]  g(i, j) == Dev2(s, i, j) * s.G[i][j] IN
  SumIJ(f) = 0 /\ SumIJ(g) = 0 /\ \A i, j \in 1..3 : Dev1(s, i, j) = Dev1(s, j, i) /\ Dev2(s, i, j) = Dev2(s, j, i)
\* turning the state turns nothing but the frame; turning the material before turns the stress with it
D1(s) == LET f(i, j) == Dev1(s, i, j) IN M3(f)
D2(s) == LET f(i, j) == Dev2(s, i, j) IN M3(f)
Objective == \A Q \in Turns : LET q == TLCEval(St(Mul(Q, A), d))  r == TLCEval(St(Mul(A, Q), d))  s == TLCEval(s0) IN
  /\ D1(q) = D1(s) /\ D2(q) = D2(s) /\ Energy(1000, q) = Energy(1000, s) /\ Energy(1000, r) = Energy(1000, s)
  /\ Mul(Q, Mul(D1(r), T(Q))) = D1(s) /\ Mul(Q, Mul(D2(r), T(Q))) = D2(s)
\* growth does not change the energy of shape, and an unchanged shape has neither stress nor energy
Shape == LET s == TLCEval(s0) IN
  /\ (dim = 3 /\ s.D = 1) => LET g == St(Mul(Stretch, A), d) IN Abs(Energy(1000, g) - Energy(1000, s)) <= 4
  /\ (s.G = <<<<s.e * s.e, 0, 0>>, <<0, s.e * s.e, 0>>, <<0, 0, s.e * s.e>>>>) => Alpha1(s) * Dev1(s, 1, 1) = 0 /\ D2(s) = D1(s) /\ Energy(1000, s) = 0
  /\ s.t >= 3 * s.e * s.e /\ s.q >= 3 * s.e * s.e * s.e * s.e
(* ---- the element ------------------------------------------------------------------------------- *)
Geometry == Len(hist) = 4 => LET e == els[1]  b == TLCEval([i \in 1..NN |-> B12(e, i)]) IN
  /\ V12(e) > 0
  /\ \A x, y \in 1..3 : LET f(i) == b[i][x]  g(i) == b[i][x] * pos[i][y] IN SumN(f, NN) = 0 /\ SumN(g, NN) = (IF x = y /\ x <= dim THEN V12(e) ELSE 0)
\* forces have no resultant and no moment; their virial is that of the pressure (the rest does no work against growth)
Balance == LET e == els[1]  s == TLCEval(s0)  K == TLCEval(PK2(1000, s, p))  F == TLCEval([i \in 1..NN |-> Force(K, s, e, i)])  t == TLCEval([i \in 1..NN |-> ForceTol(s, e, i)])
    c == TLCEval([i \in 1..NN |-> LET g(x) == A[x][1] * pos[i][1] + A[x][2] * pos[i][2] + A[x][3] * pos[i][3] IN <<g(1), g(2), g(3)>>]) IN
  /\ \A x \in 1..dim : LET f(i) == F[i][x] g(i) == t[i][x] IN Abs(SumN(f, NN)) <= SumN(g, NN)
  /\ \A x \in (IF dim = 3 THEN 1..3 ELSE {3}) : LET a == N1(x) b == N1(N1(x)) f(i) == c[i][a] * F[i][b] - c[i][b] * F[i][a]  g(i) == Abs(c[i][a]) * t[i][b] + Abs(c[i][b]) * t[i][a] IN Abs(SumN(f, NN)) <= SumN(g, NN)
  /\ dim = 3 => LET f(i) == Dot(c[i], F[i])  g(i) == Dot(<<Abs(c[i][1]), Abs(c[i][2]), Abs(c[i][3])>>, t[i]) IN Abs(SumN(f, NN) + Sc(1000, 3 * p * s.D * V12(e), 12 * d * d)) <= SumN(g, NN) + 1
=============================================================================
