------------------------------ MODULE TraceFE ------------------------------
(* Recorded runs of FEStorage, the solvers and the post-processors against FE.                     *)
EXTENDS FE, TraceBase

VARIABLES kx,      \* assembled K (integers)
          fx,      \* assembled F (scaled)
          sv,      \* solver: [k, steps, iters, crit]
          fixes, loads,      \* sequences <<key, scaled value>>, <<key, value>>
          U, R,    \* last DoF values / loads and reactions (scaled by fm.S)
          nw,      \* Newton state [st, it, tot, t, pend, du, acc, last]
          pp,      \* post-processors [recs, round, k, nproc, rh]
          rps      \* reaction processors
tvars == <<fevars, kx, fx, sv, fixes, loads, U, R, nw, pp, rps, l>>
NoNw == [st |-> 0, it |-> 0, tot |-> 0, t |-> 0, pend |-> FALSE, du |-> -1, full |-> FALSE, U0 |-> <<>>, DU |-> <<>>, DDU |-> <<>>]
NoPP == [recs |-> <<>>, round |-> "idle", k |-> 0, nproc |-> 0, rh |-> <<>>, n |-> 0, rs |-> {}]
NoSv == [k |-> "none"]

Rows(t) == [a \in {<<t[k][1], t[k][2], t[k][3]>> : k \in DOMAIN t} |-> (CHOOSE k \in DOMAIN t : <<t[k][1], t[k][2], t[k][3]>> = a)]
TEq(t) == LET r == Rows(t) IN [a \in DOMAIN r |-> t[r[a]][4]]
TCon(t) == {<<t[k][1], t[k][2], t[k][3]>> : k \in {j \in DOMAIN t : t[j][5] = 1}}
TReq(r) == [w \in {<<r[k][1], r[k][2], r[k][3]>> : k \in DOMAIN r} |-> r[CHOOSE k \in DOMAIN r : <<r[k][1], r[k][2], r[k][3]>> = w][4]]
NoDup(t) == Cardinality(DOMAIN Rows(t)) = Len(t)
MatIs(A, f(_, _)) == Len(A) = NEq /\ \A i \in 1..NEq : Len(A[i]) = NEq /\ \A j \in 1..NEq : A[i][j] = f(i, j)
Row(A, i, v) == LET c(j) == A[i][j] * v[j] IN SumTo(c, Len(v))
RowAbs(A, i) == LET c(j) == Abs(A[i][j]) IN SumTo(c, Len(A))
LoadsOn(key, t) == LET c(k) == IF loads[k][1] = key THEN loads[k][2] * t ELSE 0 IN SumTo(c, Len(loads))
KeyOf(i) == CHOOSE a \in reg : eq[a] = i
FixSet == {fixes[k][1] : k \in DOMAIN fixes}
\* the last value given to a DoF counts
FixVal(key) == fixes[CHOOSE k \in DOMAIN fixes : fixes[k][1] = key /\ \A j \in DOMAIN fixes : fixes[j][1] = key => j <= k][2]
ConEq == {eq[a] : a \in con}
UnkEq == {eq[a] : a \in reg \ con}
Keep(x) == UNCHANGED x

Tv0 == UNCHANGED <<kx, fx, sv, fixes, loads, U, R, nw, pp, rps>>
Begin == /\ fm' = NoModel /\ phase' = "mesh" /\ reg' = {} /\ con' = {} /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF
         /\ kx' = <<>> /\ fx' = <<>> /\ sv' = NoSv /\ fixes' = <<>> /\ loads' = <<>> /\ U' = <<>> /\ R' = <<>> /\ nw' = NoNw /\ pp' = NoPP /\ rps' = <<>>

DoFe == ev.nn * 3 >= 0 /\ ev.nums = [k \in 1..ev.nn |-> k] /\ NewModel(ev.S, ev.nn, ev.pos)
        /\ kx' = <<>> /\ fx' = <<>> /\ sv' = NoSv /\ fixes' = <<>> /\ loads' = <<>> /\ U' = <<>> /\ R' = <<>> /\ nw' = NoNw /\ pp' = NoPP /\ rps' = <<>>
ElRec == [nodes |-> ev.nodes, dofs |-> ev.dofs, edofs |-> ev.edofs, K |-> ev.K, C |-> ev.C, M |-> ev.M, F |-> ev.F, tang |-> ev.tang, nl |-> ev.nl]

DoInit == /\ InitDofs /\ Tv0
          /\ ev.nd = Cardinality(Wanted) /\ DOMAIN Rows(ev.t) = Wanted /\ NoDup(ev.t) /\ TCon(ev.t) = {}
          /\ SeqSet(ev.un) = {a[3] : a \in {b \in Wanted : b[1] = "N"}} /\ SeqSet(ev.ue) = {a[3] : a \in {b \in Wanted : b[1] = "E"}}
          /\ ev.nm = NMpc
DoAssign == /\ ev.nd = NDof /\ ev.nc = NCon /\ ev.nu = NDof - NCon /\ ev.nm = NMpc
            /\ NoDup(ev.t) /\ TCon(ev.t) = con
            /\ Number(TEq(ev.t), ev.m, TReq(ev.r))
            /\ Len(ev.r) = Cardinality(RigidEqs)
            /\ U' = [i \in 1..NEq |-> 0] /\ R' = [i \in 1..NEq |-> 0]
            /\ UNCHANGED <<kx, fx, sv, fixes, loads, nw, pp, rps>>
\* a post-processor sees the numbered model before the first assembly
DoAssignSeen == UNCHANGED <<fevars>> /\ Tv0
DoAlloc == /\ Alloc /\ ev.u = NEq /\ ev.f = NEq /\ ev.r = NEq /\ ev.krows = NEq
           /\ (\A i \in 1..NEq : ev.U[i] = 0 /\ ev.R[i] = 0 /\ ev.F[i] = 0)
           /\ (fm.tr => ev.du = NEq /\ ev.ddu = NEq)
           /\ Tv0
AsmOK == /\ MatIs(ev.K, KAt) /\ ev.krows = NEq
         /\ Len(ev.F) = NEq /\ \A i \in 1..NEq : ev.F[i] = fm.S * FAt(i)
         /\ ev.tr = fm.tr
         /\ (fm.tr => MatIs(ev.C, CAt) /\ MatIs(ev.M, MAt) /\ ev.crows = NEq /\ ev.mrows = NEq)
DoAsm == /\ phase \in {"alloc", "numbered", "assembled"} /\ AsmOK
         /\ phase' = "assembled" /\ kx' = ev.K /\ fx' = ev.F
         /\ UNCHANGED <<fm, reg, con, eq, meq, req, loc, mrow, sv, fixes, loads, U, R, nw, pp, rps>>

\* ---- a linear static solution: constrained values, equilibrium of every equation, loads, reactions
LinOK == LET T == fm.S IN
  /\ Len(ev.U) = NEq /\ Len(ev.R) = NEq
  /\ \A a \in con : Abs(ev.U[eq[a]] - FixVal(a)) <= 0
  /\ \A a \in reg \ con : ev.R[eq[a]] = LoadsOn(a, T)
  /\ \A i \in (NDof + 1)..NEq : ev.R[i] = 0
  /\ \A i \in 1..NEq : Abs(Row(kx, i, ev.U) - ev.R[i] - fx[i]) <= RowAbs(kx, i) + 2

\* ---- one Newton iteration: tangent * increment = F(U0) + t * loads, prescribed values follow t
KEl(i, j) == LET c(k) == IF i \in DOMAIN loc[k] /\ j \in DOMAIN loc[k] THEN fm.els[k].K[loc[k][i]][loc[k][j]] * (IF fm.els[k].nl THEN 1 ELSE 0) ELSE 0 IN SumTo(c, Len(fm.els))
IterF(i, u) == fm.S * FEl(i) - (LET c(j) == KEl(i, j) * u[j] IN SumTo(c, NDof))
IterTol(i) == LET c(j) == 2 * Abs(KAt(i, j)) + Abs(KEl(i, j)) IN SumTo(c, NEq) + 2 + LET d(k) == Abs(loads[k][2]) IN SumTo(d, Len(loads))
\* a finite rotation changes the coefficients of the rotations of the master: its moment equations and
\* the constraint rows themselves are judged by TurnOK and RigidOK instead
MasterRot == {eq[<<"N", fm.rigids[c].m, d>>] : c \in DOMAIN fm.rigids, d \in SeqSet(Rots)}
UpdOK == LET t == nw.t
             D == [j \in 1..NEq |-> IF j <= NDof THEN ev.U[j] - nw.U0[j] ELSE ev.U[j]] IN
  /\ Len(ev.U) = NEq /\ Len(ev.R) = NEq
  /\ \A a \in con : Abs(ev.U[eq[a]] * fm.S - FixVal(a) * t) <= fm.S + Abs(FixVal(a))
  /\ \A a \in reg \ con : Abs(ev.R[eq[a]] - LoadsOn(a, t)) <= 1 + Abs(LoadsOn(a, 1))
  /\ \A i \in (NDof + 1)..NEq : ev.R[i] = 0
  /\ \A i \in (1..NDof) \ MasterRot : LET lhs == LET c(j) == KAt(i, j) * D[j] IN SumTo(c, NEq)
                                 r == IF i \in UnkEq THEN LoadsOn(KeyOf(i), t) ELSE ev.R[i] IN
            Abs(lhs - IterF(i, nw.U0) - r) <= IterTol(i)
  /\ \A i \in SeqSet(meq) : LET lhs == LET c(j) == KAt(i, j) * D[j] IN SumTo(c, NDof) IN
            Abs(lhs - fm.S * FMpc(i)) <= IterTol(i)
\* the last iteration still moved (the code's own criterion is sharper than the user's; what lies below
\* the resolution of the trace is not judged)
Refusable == nw.du > 0 \/ sv.crit < 50000
DoIter == /\ sv.k = "nl" /\ ~nw.pend /\ pp.round # "idle"
          /\ ev.U = (IF nw.tot = 0 THEN [i \in 1..NEq |-> 0] ELSE U)
          /\ ev.tot = nw.tot + 1 /\ ev.it <= sv.iters
          /\ \/ \* next iteration of the same step: the previous one had not converged
                nw.it > 0 /\ ev.it = nw.it + 1 /\ ev.st = nw.st /\ ev.t = nw.t /\ Refusable /\ pp.nproc = nw.st - 1
             \/ \* first iteration of the next step: the previous one was reported
                ev.it = 1 /\ ev.st = nw.st + 1 /\ ev.st <= sv.steps /\ Abs(ev.t * sv.steps - ev.st * fm.S) <= sv.steps /\ pp.nproc = nw.st /\ (nw.it > 0 => nw.t < fm.S)
          /\ pp.k \in {0, Len(pp.recs)}
          /\ nw' = [nw EXCEPT !.st = ev.st, !.it = ev.it, !.tot = ev.tot, !.t = ev.t, !.pend = TRUE, !.U0 = ev.U]
          /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, pp, rps>>
DoUpd == /\ nw.pend /\ UpdOK
         /\ U' = ev.U /\ R' = ev.R
         /\ nw' = [nw EXCEPT !.pend = FALSE, !.du = LET c(j) == IF j \in UnkEq THEN Abs(ev.U[j] - nw.U0[j]) ELSE 0 IN SumTo(c, NDof)]
         /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, pp, rps>>
\* mean increment of the accepted iteration <= criterion (in 1e-6)
Accepted == ~nw.pend /\ nw.du >= 0 /\ (nw.du - (NDof - NCon)) * (1000000 \div fm.S) <= sv.crit * (NDof - NCon)

(* ---- one step of the linear transient solution (Newmark): time step 1/m, parameters al/8, de/8 --- *)
TrU0 == [i \in 1..NEq |-> IF i \in ConEq THEN FixVal(KeyOf(i)) ELSE sv.init * fm.S]
TrOK == LET m == sv.m  first == pp.nproc = 1
            u0 == IF first THEN TrU0 ELSE U
            v0 == IF first THEN [i \in 1..NEq |-> 0] ELSE nw.DU
            a0 == IF first THEN [i \in 1..NEq |-> 0] ELSE nw.DDU IN
  /\ Len(ev.U) = NEq /\ Len(ev.DU) = NEq /\ Len(ev.DDU) = NEq
  /\ \A a \in con : ev.U[eq[a]] = FixVal(a) /\ ev.DU[eq[a]] = 0 /\ ev.DDU[eq[a]] = 0
  /\ \A a \in reg \ con : ev.R[eq[a]] = LoadsOn(a, fm.S)
  \* the kinematic relations between two instants
  /\ \A i \in UnkEq : Abs(8 * m * m * (ev.U[i] - u0[i]) - 8 * m * v0[i] - (4 - sv.al) * a0[i] - sv.al * ev.DDU[i]) <= 8 * m * m + 4 * m + 8
  /\ \A i \in UnkEq : Abs(8 * m * (ev.DU[i] - v0[i]) - (8 - sv.de) * a0[i] - sv.de * ev.DDU[i]) <= 8 * m + 8
  \* equilibrium at the new instant
  /\ \A i \in UnkEq : LET c(j) == KAt(i, j) * ev.U[j] + (IF j <= NDof THEN CAt(i, j) * ev.DU[j] + MAt(i, j) * ev.DDU[j] ELSE 0)
                             e(j) == Abs(KAt(i, j)) + Abs(CAt(i, j)) + Abs(MAt(i, j)) IN
       Abs(SumTo(c, NEq) - fm.S * FAt(i) - LoadsOn(KeyOf(i), fm.S)) <= SumTo(e, NEq) + 2
  /\ \A i \in (NDof + 1)..NEq : LET c(j) == KAt(i, j) * ev.U[j] e(j) == Abs(KAt(i, j)) IN Abs(SumTo(c, NDof) - fm.S * FAt(i)) <= SumTo(e, NEq) + 2

(* ---- finite rotation of a rigid body whose master node is prescribed ------------------------- *)
\* the rotation vector is a quarter / half turn about an axis or a third of a turn about (1,1,1)
Rot90(a) == CASE a = 1 -> <<<<1,0,0>>, <<0,0,-1>>, <<0,1,0>>>> [] a = 2 -> <<<<0,0,1>>, <<0,1,0>>, <<-1,0,0>>>> [] a = 3 -> <<<<0,-1,0>>, <<1,0,0>>, <<0,0,1>>>>
               [] a = 4 -> <<<<0,0,1>>, <<1,0,0>>, <<0,1,0>>>>
Id3 == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
Mul3(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
RECURSIVE Pow3(_, _)
Pow3(A, k) == IF k = 0 THEN Id3 ELSE Mul3(A, Pow3(A, k - 1))
\* turned event: [coll, axis, k]: the master has been turned k times
TurnOK == LET r == fm.rigids[ev.c] C == Pow3(Rot90(ev.a), ev.k) IN
  \A s \in SeqSet(r.s), d \in SeqSet(r.d) : LET i == TIdx(d) v == [j \in 1..3 |-> fm.pos[s][j] - fm.pos[r.m][j]]
       want == U[eq[<<"N", r.m, d>>]] + fm.S * (C[i][1] * v[1] + C[i][2] * v[2] + C[i][3] * v[3] - v[i]) IN
     Abs(U[eq[<<"N", s, d>>]] - want) <= ev.tol

\* turnedq event: turned by 2*atan(p/q) about the axis ax/w (|ax| = w), where the rotation matrix is rational
RotQ(p, q, ax, w) == LET c == q * q - p * p s == 2 * p * q d == p * p + q * q
                         cr == <<<<0, -ax[3], ax[2]>>, <<ax[3], 0, -ax[1]>>, <<-ax[2], ax[1], 0>>>> IN
  [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN c * w * w ELSE 0) + s * w * cr[i][j] + (d - c) * ax[i] * ax[j]]]
Scaled(x, den) == fm.S * (x \div den) + (fm.S * (x % den)) \div den
TurnQOK == LET r == fm.rigids[ev.c] C == RotQ(ev.p, ev.q, ev.ax, ev.w) den == (ev.p * ev.p + ev.q * ev.q) * ev.w * ev.w IN
  \A s \in SeqSet(r.s), d \in SeqSet(r.d) : LET i == TIdx(d) v == [j \in 1..3 |-> fm.pos[s][j] - fm.pos[r.m][j]]
       want == U[eq[<<"N", r.m, d>>]] + Scaled(C[i][1] * v[1] + C[i][2] * v[2] + C[i][3] * v[3], den) - fm.S * v[i] IN
     Abs(U[eq[<<"N", s, d>>]] - want) <= ev.tol

\* any state: a rigid body keeps its distances and the component along the axis of rotation
Rel(s, m, i) == (U[eq[<<"N", s, Trans[i]>>]] - U[eq[<<"N", m, Trans[i]>>]]) \div 10 + (fm.S \div 10) * (fm.pos[s][i] - fm.pos[m][i])
Rel0(s, m, i) == (fm.S \div 10) * (fm.pos[s][i] - fm.pos[m][i])
Norm2(x) == x[1] * x[1] + x[2] * x[2] + x[3] * x[3]
Norm1(x) == Abs(x[1]) + Abs(x[2]) + Abs(x[3])
RigidOK == LET r == fm.rigids[ev.c] nodes == {r.m} \cup SeqSet(r.s)
               th == [i \in 1..3 |-> U[eq[<<"N", r.m, Rots[i]>>]] \div 10] IN
  \A a, b \in nodes : LET x == [i \in 1..3 |-> Rel(a, b, i)] y == [i \in 1..3 |-> Rel0(a, b, i)] IN
    /\ Abs(Norm2(x) - Norm2(y)) <= 6 * Norm1(y) + 60
    /\ Abs((x[1] - y[1]) * th[1] + (x[2] - y[2]) * th[2] + (x[3] - y[3]) * th[3]) <= 4 * (Norm1(th) + Norm1(y)) + 60

(* ---- post-processors -------------------------------------------------------------------------- *)
Idx(id) == CHOOSE k \in DOMAIN pp.recs : pp.recs[k].id = id
DoPre == /\ pp.round \in {"idle", "pre"} /\ pp.k < Len(pp.recs) /\ pp.recs[pp.k + 1].id = ev.id /\ ev.num = pp.recs[pp.k + 1].num
         /\ pp' = [pp EXCEPT !.round = "pre", !.k = @ + 1]
         /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, nw, rps>>
DoProc == /\ \/ pp.round \in {"pre", "run"} /\ pp.k = Len(pp.recs) /\ pp.recs[1].id = ev.id /\ ev.step = pp.nproc + 1
                /\ (sv.k = "lin" => pp.nproc = 0) /\ (sv.k = "nl" => Accepted /\ ev.step = nw.st)
                /\ pp' = [pp EXCEPT !.round = "run", !.k = 1, !.nproc = @ + 1]
             \/ pp.round = "run" /\ pp.k < Len(pp.recs) /\ pp.recs[pp.k + 1].id = ev.id /\ ev.step = pp.nproc
                /\ pp' = [pp EXCEPT !.k = @ + 1]
          /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, nw, rps>>
DoPost == /\ \/ pp.round = "run" /\ pp.k = Len(pp.recs) /\ pp.recs[1].id = ev.id /\ ev.step >= pp.nproc
                /\ (sv.k = "nl" => nw.t = fm.S)
                /\ pp' = [pp EXCEPT !.round = "post", !.k = 1]
             \/ pp.round = "post" /\ pp.k < Len(pp.recs) /\ pp.recs[pp.k + 1].id = ev.id /\ ev.step >= pp.nproc
                /\ pp' = [pp EXCEPT !.k = @ + 1]
          /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, nw, rps>>
\* the results a post-processor sees while processing a step
DoRes == /\ pp.round = "run"
         /\ CASE sv.k = "lin" -> LinOK [] sv.k = "tr" -> TrOK [] OTHER -> ev.U = U /\ ev.R = R
         /\ U' = ev.U /\ R' = ev.R /\ nw' = IF sv.k = "tr" THEN [nw EXCEPT !.DU = ev.DU, !.DDU = ev.DDU] ELSE nw
         /\ pp' = [pp EXCEPT !.rh = IF Len(@) < pp.nproc THEN Append(@, ev.R) ELSE @]
         /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, rps>>
GetOK == \A k \in DOMAIN ev.v : LET x == ev.v[k] IN
  /\ x.n = k
  /\ \A d \in DOMAIN x.v : LET key == <<"N", x.n, x.v[d][1]>> IN
       IF key \in reg THEN x.v[d][4] = 1 /\ x.v[d][2] = U[eq[key]] /\ x.v[d][3] = R[eq[key]]
       ELSE x.v[d][4] = 0 /\ x.v[d][2] = 0 /\ x.v[d][3] = 0
  /\ \A i \in 1..3 : LET key == <<"N", x.n, Trans[i]>> IN
       /\ x.p[i] = fm.pos[x.n][i] * fm.S
       /\ Abs(x.q[i] - x.p[i] - (IF key \in reg THEN U[eq[key]] ELSE 0)) <= 1
Solved == pp.recs # <<>> => pp.round = "post" /\ pp.k = Len(pp.recs) /\ (sv.k = "nl" => ev.conv = pp.nproc /\ ev.tot = nw.tot /\ pp.nproc = nw.st /\ nw.st = sv.steps) /\ (sv.k = "tr" => pp.nproc = sv.steps) /\ (sv.k = "lin" => pp.nproc = 1)
SeenOK == \A k \in DOMAIN ev.v : ev.v[k].u > 0 => LET lk == LocalKeys(k) IN
            Len(ev.v[k].s) = Len(lk) /\ \A a \in DOMAIN lk : ev.v[k].s[a] = U[eq[lk[a]]]

\* ---- reaction processor: sum over its nodes, one value per processed step after the initial zero
\* without a choice of the user: the constrained DoFs of the first node, chosen when the solution starts
AutoDofs(r, cs) == {d \in DofTypes : <<"N", r.n[1], d>> \in cs}
RDofs(r) == IF r.d # <<>> THEN SeqSet(r.d) ELSE r.au
RSum(r, d, k) == LET c(j) == IF <<"N", r.n[j], d>> \in reg THEN pp.rh[k][eq[<<"N", r.n[j], d>>]] ELSE 0 IN SumTo(c, Len(r.n))
\* a set of nodes whose constrained DoFs differ from those chosen automatically is refused
MixedSet == \E k \in pp.rs : rps[k].d = <<>> /\ \E n \in SeqSet(rps[k].n), d \in rps[k].au : <<"N", n, d>> \notin con
ReactOK == LET r == rps[ev.id] IN
  /\ {ev.r[k][1] : k \in DOMAIN ev.r} = RDofs(r) /\ Len(ev.r) = Cardinality(RDofs(r))
  /\ \A k \in DOMAIN ev.r : LET d == ev.r[k][1] h == ev.r[k][2] IN
       /\ Len(h) = Len(pp.rh) + 1 /\ h[1] = 0
       /\ \A s \in 1..Len(pp.rh) : Abs(h[s + 1] - RSum(r, d, s)) <= Len(r.n)
  /\ r.file =>
       /\ Len(ev.h) = Len(ev.r) /\ SeqSet(ev.h) = RDofs(r)
       /\ Len(ev.f) = Len(pp.rh) + 1
       /\ \A s \in DOMAIN ev.f : Len(ev.f[s]) = Len(ev.h) + 1 /\ ev.f[s][1] = s - 1
            /\ \A k \in DOMAIN ev.h : LET w == IF s = 1 THEN 0 ELSE RSum(r, ev.h[k], s - 1) IN Abs(ev.f[s][k + 1] - w) <= Len(r.n) + 1 + (Abs(w) \div 50000)

Same == UNCHANGED fevars /\ Tv0
Step ==
  CASE ev.e = "begin" -> Begin
    [] ev.e = "end" -> Same
    [] ev.e = "fe" -> DoFe
    [] ev.e = "elem" -> ev.n = Len(fm.els) + 1 /\ ev.num = ev.n /\ AddElem(ElRec) /\ Tv0
    [] ev.e = "scaleel" -> /\ LET sc(A) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> A[i][j] * ev.f]] IN
                              fm' = [fm EXCEPT !.els[ev.n] = [@ EXCEPT !.K = sc(@), !.C = sc(@), !.M = sc(@), !.F = [i \in DOMAIN @ |-> @[i] * ev.f]]]
                           /\ UNCHANGED <<phase, reg, con, eq, meq, req, loc, mrow>> /\ Tv0
    [] ev.e = "mpc" -> AddMpc([t |-> ev.t, b |-> ev.b]) /\ Tv0
    [] ev.e = "rigid" -> AddRigid([m |-> ev.m, d |-> ev.d, s |-> ev.s]) /\ Tv0
    [] ev.e = "transient" -> SetTransient(ev.v) /\ Tv0
    [] ev.e = "initdofs" -> DoInit
    [] ev.e = "con" -> Constrain(<<ev.k, ev.n, ev.d>>) /\ ev.nc = Cardinality(con') /\ Tv0
    [] ev.e = "assign" -> IF phase = "dofs" THEN DoAssign ELSE DoAssignSeen
    [] ev.e = "initsol" -> DoAlloc
    [] ev.e = "asm" -> DoAsm
    [] ev.e = "addr" -> LET i == eq[<<"N", ev.n, ev.d>>] IN
                        /\ R' = [R EXCEPT ![i] = @ + ev.v * fm.S] /\ ev.r * fm.S = R'[i] /\ ev.r2 = ev.r
                        /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, nw, pp, rps>>
    [] ev.e = "setu" -> U' = [U EXCEPT ![eq[<<"N", ev.n, ev.d>>]] = ev.v] /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, R, nw, pp, rps>>
    [] ev.e = "setue" -> U' = [U EXCEPT ![eq[<<"E", ev.n, ev.d>>]] = ev.v] /\ ev.g = ev.v /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, R, nw, pp, rps>>
    [] ev.e = "getters" -> GetOK /\ Same
    [] ev.e = "delsol" -> ev.nd = 0 /\ ev.nc = 0 /\ ev.nu = 0 /\ DropSolution /\ kx' = <<>> /\ fx' = <<>> /\ U' = <<>> /\ R' = <<>> /\ UNCHANGED <<sv, fixes, loads, nw, pp, rps>>
    [] ev.e = "solver" -> sv' = ev @@ [crit |-> 0, iters |-> 0, steps |-> 0] /\ fixes' = <<>> /\ loads' = <<>> /\ pp' = NoPP /\ nw' = NoNw /\ UNCHANGED <<fevars, kx, fx, U, R, rps>>
    [] ev.e = "fix" -> fixes' = Append(fixes, <<<<"N", ev.n, ev.d>>, ev.v>>) /\ UNCHANGED <<fevars, kx, fx, sv, loads, U, R, nw, pp, rps>>
    [] ev.e = "load" -> loads' = Append(loads, <<<<"N", ev.n, ev.d>>, ev.v>>) /\ UNCHANGED <<fevars, kx, fx, sv, fixes, U, R, nw, pp, rps>>
    [] ev.e = "rec" -> /\ ev.num = pp.n + 1 /\ ev.np = ev.num /\ ev.same
                       /\ pp' = [pp EXCEPT !.recs = Append(@, [id |-> ev.id, num |-> ev.num]), !.n = @ + 1]
                       /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, nw, rps>>
    [] ev.e = "react" -> ev.id = Len(rps) + 1 /\ rps' = Append(rps, [n |-> ev.n, d |-> ev.d, file |-> ev.file, au |-> {}]) /\ pp' = [pp EXCEPT !.n = @ + 1, !.rs = @ \cup {ev.id}] /\ UNCHANGED <<fevars, kx, fx, sv, fixes, loads, U, R, nw>>
    [] ev.e = "solve" -> \* solving, also again: everything starts afresh from the model and the boundary conditions
                         /\ reg' = Wanted /\ con' = FixSet /\ FixSet \subseteq Wanted /\ phase' = "dofs"
                         /\ fm' = [fm EXCEPT !.tr = @ \/ sv.k = "tr"]
                         /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF
                         /\ kx' = <<>> /\ fx' = <<>> /\ U' = <<>> /\ R' = <<>> /\ nw' = NoNw
                         /\ pp' = [pp EXCEPT !.round = "idle", !.k = 0, !.nproc = 0, !.rh = <<>>]
                         /\ rps' = [k \in DOMAIN rps |-> IF rps[k].d = <<>> /\ rps[k].au = {} THEN [rps[k] EXCEPT !.au = AutoDofs(rps[k], FixSet)] ELSE rps[k]]
                         /\ UNCHANGED <<sv, fixes, loads>>
    [] ev.e = "ppre" -> DoPre
    [] ev.e = "pproc" -> DoProc
    [] ev.e = "ppost" -> DoPost
    [] ev.e = "res" -> DoRes
    [] ev.e = "iter" -> DoIter
    [] ev.e = "upd" -> IF sv.k = "nl" THEN DoUpd ELSE Same
    [] ev.e = "solved" -> Solved /\ ~MixedSet /\ Same
    [] ev.e = "refused" -> IF MixedSet THEN ev.ok /\ pp.nproc = 0 /\ Same ELSE ev.ok /\ nw.it = sv.iters /\ ~nw.pend /\ Refusable /\ pp.nproc = nw.st - 1 /\ Same
    [] ev.e = "turned" -> TurnOK /\ Same
    [] ev.e = "turnedq" -> TurnQOK /\ Same
    [] ev.e = "rigidck" -> RigidOK /\ Same
    [] ev.e = "reactout" -> ReactOK /\ Same
    [] ev.e = "seen" -> SeenOK /\ Same
    [] OTHER -> FALSE
TInit == FEInit /\ kx = <<>> /\ fx = <<>> /\ sv = NoSv /\ fixes = <<>> /\ loads = <<>> /\ U = <<>> /\ R = <<>> /\ nw = NoNw /\ pp = NoPP /\ rps = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
