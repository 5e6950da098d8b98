------------------------------ MODULE MCElem ------------------------------
(* Every element of a small lattice: the formulas of Elements obey the laws of mechanics and heat   *)
(* conduction (symmetry, rigid motions without forces, balance, exact linear fields); each element  *)
(* is emitted as a script for the code.                                                             *)
EXTENDS Elements, Json
CONSTANTS Big
VARIABLES ph, hist
Cube == {<<a, b, c>> : a, b, c \in 0..1}
Grid == {<<a, b, 0>> : a, b \in 0..2}
Pt == <<-1, 2, 1>>                                         \* an arbitrary first node for bars
Dirs == {<<2, 0, 0>>, <<0, -3, 0>>, <<0, 0, 1>>, <<3, 4, 0>>, <<-4, 0, 3>>, <<0, 5, -12>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<2, -2, -1>>, <<2, 3, 6>>, <<-6, 2, -3>>}
Axes == {<<a, b, c>> : a, b, c \in -1..1} \ {<<0, 0, 0>>}
Mys == IF Big THEN {<<0, 1>>, <<1, 4>>, <<1, 3>>, <<3, 10>>} ELSE {<<0, 1>>, <<1, 3>>}
Inits == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 1, 1, -2, 3, 4, -5, 6>>, <<3, 1, 0, 0, 0, 1, 0, 0>>, <<-1, 2, 2, 0, -1, 3, 1, -2>>}
Ccw(q) == \A i \in 1..4 : LET a == Sub3(q[(i % 4) + 1], q[i]) b == Sub3(q[((i + 1) % 4) + 1], q[(i % 4) + 1]) IN Cr2(a, b) > 0
TetOK(q) == Dot(Sub3(q[4], q[1]), Cross(Sub3(q[2], q[1]), Sub3(q[3], q[1]))) > 0
TriOK(q) == Cr2(Sub3(q[2], q[1]), Sub3(q[3], q[1])) > 0
Seq4(A) == {<<a, b, c, d>> : a, b, c, d \in A}
Seq3(A) == {<<a, b, c>> : a, b, c \in A}
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Tets == {q \in Seq4(Cube) : TetOK(q)} \cup (IF Big THEN {q \in {<<a, <<2, 0, 1>>, b, c>> : a, b, c \in {<<x, y, z>> : x, y, z \in {0, 2, -1}}} : TetOK(q)} ELSE {})
Tets0 == {q \in Tets : q[1] = <<0, 0, 0>>}
Tris == {q \in Seq3(Grid) : TriOK(q)}
Quads == {q \in Seq4(Grid) : Ccw(q)}
Bars == {<<Pt, Add3(Pt, d)>> : d \in Dirs}
\* triangles of interfaces: right ones spanned by two perpendicular vectors of integer length
Inter == {<<Pt, Add3(Pt, a), Add3(Pt, b), Pt, Add3(Pt, a), Add3(Pt, b)>> : a \in Dirs, b \in Dirs}
InterOK(q) == LET n == Cross(Sub3(q[2], q[1]), Sub3(q[3], q[1])) IN n # <<0, 0, 0>> /\ HasSqrt(Dot(n, n))
Params ==
  {<<"TRUSS3", <<E, A>>>> : E \in {1, 7}, A \in {1, 3}}
  \cup {<<"TRI", <<s, 6, m[1], m[2]>>>> : s \in 0..1, m \in Mys}
  \cup {<<"TETRA0", <<10, m[1], m[2]>> \o z>> : m \in Mys, z \in Inits}
  \cup {<<"TETRA1", <<5>>>>}
  \cup {<<"QUADTH", <<4, 2, 3, f, o>>>> : f \in {0, 5}, o \in 0..3}
  \cup {<<"LINETH", <<f, h, t[1], t[2], o>>>> : f \in {0, 3}, h \in {0, 2}, t \in {<<0, 0>>, <<4, 0>>, <<4, 7>>}, o \in 0..3}
  \cup {<<"INTER0", <<kn, 3>> \o n>> : kn \in {3, 8}, n \in Axes}
  \cup {<<"INTER3", <<5, k>>>> : k \in {5, 2}}
Shapes(c) == CASE c[1] \in {"TRUSS3", "LINETH"} -> Bars [] c[1] = "TRI" -> Tris [] c[1] = "TETRA1" -> IF Big THEN Tets ELSE Tets0 [] c[1] = "QUADTH" -> Quads
  [] c[1] = "INTER0" -> {<<Pt, Pt>>} [] c[1] = "INTER3" -> {q \in Inter : InterOK(q)}
  [] c[1] = "TETRA0" -> IF Big THEN Tets ELSE Tets0
Flat(q) == [k \in 1..(3 * Len(q)) |-> q[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]
Vals == <<1, -2, 3, 0, 2, -1, 4>>
Init == pos = <<>> /\ els = <<>> /\ ph = 0 /\ hist = <<>>
ChooseType == ph = 0 /\ \E c \in Params : els' = <<[t |-> c[1], n |-> <<>>, p |-> c[2]]>> /\ ph' = 1 /\ UNCHANGED <<pos, hist>>
ChooseNodes == ph = 1 /\ \E q \in Shapes(<<els[1].t, els[1].p>>) : LET nn == [i \in 1..Len(q) |-> i] IN /\ pos' = q /\ els' = <<[els[1] EXCEPT !.n = nn]>> /\ ph' = 2
  /\ hist' = <<<<"nodes", 1000, Len(q)>> \o Flat(q), <<els[1].t>> \o nn \o els[1].p>>
Build == ph = 2 /\ ph' = 3 /\ hist' = hist \o <<<<"build", IF els[1].t \in {"QUADTH", "LINETH"} THEN 1 ELSE 0>>>> /\ UNCHANGED <<pos, els>>
SetU == ph = 3 /\ ph' = 4 /\ hist' = hist \o <<<<"set">> \o Vals, <<"assemble">>, <<"set">> \o Tail(Vals)>> /\ UNCHANGED <<pos, els>>
Next == ChooseType \/ ChooseNodes \/ Build \/ SetU
Spec == Init /\ [][Next]_<<pos, els, ph, hist>>
Emit == ph' = 4 => PrintT(<<"SCRIPT", ToJson(hist')>>)
(* ---- the laws -------------------------------------------------------------------------------- *)
E1 == els[1]
NN == 1..Len(E1.n)
Dim == IF DofsOf(E1) = {"TEMP"} THEN 0 ELSE Cardinality(DofsOf(E1))
Ax == IF Dim = 0 THEN {0} ELSE 1..Dim
RNorm(r) == LET g == GCD(Iabs(r[1]), Iabs(r[2])) s == IF r[2] < 0 THEN -1 ELSE 1 IN <<(s * r[1]) \div g, (s * r[2]) \div g>>
REq(a, b) == RNorm(a) = RNorm(b)
\* entries of one element share their denominator
Chosen == ph = 2
Full == E1.t = "QUADTH" => QOrd(E1) = 1 \/ Parallelogram(E1)
Symmetric == Chosen /\ Full => \A i, j \in NN, a, b \in Ax : KOf(E1, i, a, j, b) = KOf(E1, j, b, i, a)
RowOf(i, a, f(_, _)) == LET r(j) == IF Dim = 0 THEN KOf(E1, i, a, j, 0)[1] * f(j, 0) ELSE LET s(b) == KOf(E1, i, a, j, b)[1] * f(j, b) IN SumN(s, Dim) IN SumN(r, Len(E1.n))
\* a uniform field or translation needs no load (a surface with film exchange excepted: it takes htc * area)
Translation == Chosen /\ Full => \A i \in NN, a, c \in Ax : LET f(j, b) == Dl(b, c) IN
   IF E1.t = "LINETH" THEN LET g(k) == RowOf(k, 0, f) IN REq(<<SumN(g, 2), LineK(E1, 1, 1)[2]>>, <<E1.p[2] * Len3(E1), 1>>) ELSE RowOf(i, a, f) = 0
Rotation == Chosen /\ Dim > 0 /\ E1.t \notin {"INTER0", "INTER3"} => \A i \in NN, a \in Ax, w \in IF Dim = 2 THEN {<<0, 0, 1>>} ELSE {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} :
   LET f(j, b) == Cross(w, P(E1, j))[b] IN RowOf(i, a, f) = 0
Diagonal == Chosen /\ Full => \A i \in NN, a \in Ax : KOf(E1, i, a, i, a)[1] * KOf(E1, i, a, i, a)[2] >= 0
\* what a source gives in all is source times size; so is what a unit rate of change takes
Balance == Chosen /\ E1.t = "QUADTH" => LET f(i) == QuadF(E1, i)[1] cc(i) == LET r(j) == QuadCap(E1, i, j)[1] IN SumN(r, 4) IN
   REq(<<SumN(f, 4), QuadF(E1, 1)[2]>>, <<E1.p[4] * QC(E1)[1], 4>>) /\ REq(<<SumN(cc, 4), QuadCap(E1, 1, 1)[2]>>, <<E1.p[2] * E1.p[3] * QC(E1)[1], 4>>)
\* initial stresses load the nodes with a self-equilibrated system of forces
SelfBalance == Chosen /\ E1.t = "TETRA0" => \A a \in 1..3 : LET f(i) == FOf(E1, i, a)[1] IN SumN(f, 4) = 0
Moments == Chosen /\ E1.t = "TETRA0" => \A w \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} :
   LET f(i) == LET g(a) == FOf(E1, i, a)[1] * Cross(w, P(E1, i))[a] IN SumN(g, 3) IN SumN(f, 4) = 0
\* the displacement field u_a = x_b has strain e_ab = 1 and nothing else; T = x_b has gradient e_b
Fields == Chosen /\ E1.t \in {"TRI", "TETRA0", "TETRA1"} => \A a \in Ax, b \in 1..(IF Dim = 0 THEN 3 ELSE Dim) :
   LET U == [k \in Keys |-> IF Dim = 0 \/ Axis(k[2]) = a THEN pos[k[1]][b] ELSE 0] r == Results(E1, U) nm == CASE E1.t = "TRI" -> "eps" [] E1.t = "TETRA0" -> "C" [] OTHER -> "GRADT"
       v == IF Dim = 0 THEN b ELSE IF Dim = 2 THEN (IF a = b THEN a ELSE 3) ELSE Voigt(a, b) IN
     \A k \in DOMAIN r[nm] : REq(r[nm][k], <<IF k = v THEN 1 ELSE 0, 1>>)
\* the forces of an elastic element do the work of its stress: u.K.u = volume * stress.strain
Work == Chosen /\ E1.t \in {"TRI", "TETRA0"} /\ (E1.t = "TETRA0" => E1.p[4] = 0 /\ E1.p[5] = 0) =>
   LET Uv(i, a) == Vals[((i * 3 + a) % 7) + 1] U == [k \in Keys |-> Uv(k[1], Axis(k[2]))] r == Results(E1, U)
       w(i) == LET s(a) == Uv(i, a) * RowOf(i, a, Uv) IN SumN(s, Dim)
       eps == IF E1.t = "TRI" THEN r["eps"] ELSE r["C"] sig == IF E1.t = "TRI" THEN r["sig"] ELSE r["E"]
       ss(k) == eps[k][1] * sig[k][1] IN
     \* K: /(d! D lm3)   stress.strain * volume: /(D * D lm3) * D/d!
     SumN(w, Len(E1.n)) = SumN(ss, Len(eps))
=============================================================================
