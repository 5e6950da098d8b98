-------------------------------- MODULE FE --------------------------------
(* A finite element model: nodes, elements with their own DoFs and (integer) matrices, multi-point *)
(* constraints, boundary conditions; the phases DoF registration, constraining, equation numbering *)
(* and assembly; and the relations a solution has to satisfy.                                      *)
(* Keys of DoFs: <<"N", node, type>> and <<"E", element, type>>.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES fm,      \* the model: [S, nn, pos, els, mpcs, rigids, transient]
          phase,   \* "mesh", "dofs", "numbered", "alloc", "assembled"
          reg,     \* registered DoF keys
          con,     \* constrained DoF keys
          eq,      \* equation of each key
          meq,     \* equations of the user's MPCs
          req,     \* <<collection, slave, dof>> -> equation
          loc,     \* per element: equation -> local index
          mrow     \* MPC equation -> (equation -> coefficient), rhs in mrhs
fevars == <<fm, phase, reg, con, eq, meq, req, loc, mrow>>

EmptyF == [x \in {} |-> 0]
Trans == <<"UX", "UY", "UZ">>
Rots == <<"ROTX", "ROTY", "ROTZ">>
TIdx(d) == CHOOSE k \in 1..3 : Trans[k] = d
DofTypes == {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
SeqSet(q) == {q[k] : k \in DOMAIN q}

NoModel == [S |-> 1, nn |-> 0, pos |-> <<>>, els |-> <<>>, mpcs |-> <<>>, rigids |-> <<>>, tr |-> FALSE]
FEInit == fm = NoModel /\ phase = "mesh" /\ reg = {} /\ con = {} /\ eq = EmptyF /\ meq = <<>> /\ req = EmptyF /\ loc = <<>> /\ mrow = EmptyF

(* ---- registration: exactly the DoFs asked for by elements and rigid bodies ------------------- *)
ElKeys(k) == LET e == fm.els[k] IN
  {<<"N", n, d>> : n \in SeqSet(e.nodes), d \in SeqSet(e.dofs)} \cup {<<"E", k, d>> : d \in SeqSet(e.edofs)}
RigidKeys(r) == {<<"N", r.m, d>> : d \in {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ"}}
Wanted == UNION {ElKeys(k) : k \in DOMAIN fm.els} \cup UNION {RigidKeys(fm.rigids[k]) : k \in DOMAIN fm.rigids}
RigidEqs == UNION {{<<k, s, d>> : s \in SeqSet(fm.rigids[k].s), d \in SeqSet(fm.rigids[k].d)} : k \in DOMAIN fm.rigids}
NDof == Cardinality(reg)
NCon == Cardinality(con)
NMpc == Len(fm.mpcs) + Cardinality(RigidEqs)
NEq == NDof + NMpc

NewModel(s, nn, pos) ==
  /\ fm' = [NoModel EXCEPT !.S = s, !.nn = nn, !.pos = pos]
  /\ phase' = "mesh" /\ reg' = {} /\ con' = {} /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF
AddElem(e) == fm' = [fm EXCEPT !.els = Append(@, e)] /\ phase' = "mesh" /\ UNCHANGED <<reg, con, eq, meq, req, loc, mrow>>
AddMpc(m) == fm' = [fm EXCEPT !.mpcs = Append(@, m)] /\ phase' = "mesh" /\ UNCHANGED <<reg, con, eq, meq, req, loc, mrow>>
AddRigid(r) == fm' = [fm EXCEPT !.rigids = Append(@, r)] /\ phase' = "mesh" /\ UNCHANGED <<reg, con, eq, meq, req, loc, mrow>>
SetTransient(b) == fm' = [fm EXCEPT !.tr = b] /\ UNCHANGED <<phase, reg, con, eq, meq, req, loc, mrow>>
\* also starts over: whatever an earlier solution left behind (DoFs, equations, constraints) is forgotten
InitDofs == reg' = Wanted /\ con' = {} /\ phase' = "dofs" /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF /\ UNCHANGED fm
Constrain(key) == phase = "dofs" /\ key \in reg /\ con' = con \cup {key} /\ UNCHANGED <<fm, phase, reg, eq, meq, req, loc, mrow>>
DropSolution == phase' = "mesh" /\ reg' = {} /\ con' = {} /\ eq' = EmptyF /\ meq' = <<>> /\ req' = EmptyF /\ loc' = <<>> /\ mrow' = EmptyF /\ UNCHANGED fm

(* ---- numbering: a bijection; constrained first, unknown next, multi-point constraints last ---- *)
IsNumbering(q, mq, rq) ==
  /\ DOMAIN q = reg
  /\ \A a \in con : q[a] \in 1..NCon
  /\ \A a \in reg \ con : q[a] \in (NCon + 1)..NDof
  /\ Cardinality({q[a] : a \in reg}) = NDof
  /\ Len(mq) = Len(fm.mpcs) /\ DOMAIN rq = RigidEqs
  /\ LET ms == SeqSet(mq) \cup {rq[k] : k \in RigidEqs} IN
       /\ ms \subseteq (NDof + 1)..NEq
       /\ Cardinality(ms) = NMpc
LocalKeys(k) == LET e == fm.els[k] nd == Len(e.dofs) nn == Len(e.nodes) IN
  [a \in 1..(nd * nn + Len(e.edofs)) |->
     IF a <= nd * nn THEN <<"N", e.nodes[((a - 1) \div nd) + 1], e.dofs[((a - 1) % nd) + 1]>> ELSE <<"E", k, e.edofs[a - nd * nn]>>]
LocOf(k, q) == LET lk == LocalKeys(k) IN [i \in {q[lk[a]] : a \in DOMAIN lk} |-> CHOOSE a \in DOMAIN lk : q[lk[a]] = i]
\* rigid body, linearised at zero rotation: u_s = u_m + theta x r
Eps(i, j, k) == IF <<i, j, k>> \in {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>} THEN 1 ELSE IF <<i, j, k>> \in {<<3,2,1>>, <<2,1,3>>, <<1,3,2>>} THEN -1 ELSE 0
RigidTerms(k, s, d) == LET r == fm.rigids[k] i == TIdx(d)
                           v == [j \in 1..3 |-> fm.pos[s][j] - fm.pos[r.m][j]] IN
  <<<<s, d, 1>>, <<r.m, d, -1>>>> \o [l \in 1..3 |-> <<r.m, Rots[l], -(Eps(i, l, 1) * v[1] + Eps(i, l, 2) * v[2] + Eps(i, l, 3) * v[3])>>]
RowOf(terms, q) == LET es == {q[<<"N", terms[k][1], terms[k][2]>>] : k \in DOMAIN terms} IN
  [i \in es |-> LET c(k) == IF q[<<"N", terms[k][1], terms[k][2]>>] = i THEN terms[k][3] ELSE 0 IN SumTo(c, Len(terms))]
RowsOf(q, mq, rq) == LET ms == SeqSet(mq) \cup {rq[k] : k \in DOMAIN rq} IN
  [i \in ms |-> IF \E k \in DOMAIN mq : mq[k] = i THEN RowOf(fm.mpcs[CHOOSE k \in DOMAIN mq : mq[k] = i].t, q)
                ELSE LET w == CHOOSE w \in DOMAIN rq : rq[w] = i IN RowOf(RigidTerms(w[1], w[2], w[3]), q)]
Number(q, mq, rq) ==
  /\ phase = "dofs" /\ NDof > NCon
  /\ IsNumbering(q, mq, rq)
  /\ eq' = q /\ meq' = mq /\ req' = rq /\ phase' = "numbered"
  /\ loc' = [k \in DOMAIN fm.els |-> LocOf(k, q)]
  /\ mrow' = RowsOf(q, mq, rq)
  /\ UNCHANGED <<fm, reg, con>>
Alloc == phase = "numbered" /\ phase' = "alloc" /\ UNCHANGED <<fm, reg, con, eq, meq, req, loc, mrow>>

(* ---- assembly: superposition of the elements and of the constraint rows ----------------------- *)
ElSum(f, i, j) == LET c(k) == IF i \in DOMAIN loc[k] /\ j \in DOMAIN loc[k] THEN fm.els[k][f][loc[k][i]][loc[k][j]] * (IF f = "K" THEN fm.els[k].tang ELSE 1) ELSE 0 IN SumTo(c, Len(fm.els))
MpcC(i, j) == IF i \in DOMAIN mrow THEN (IF j \in DOMAIN mrow[i] THEN mrow[i][j] ELSE 0)
              ELSE IF j \in DOMAIN mrow /\ i \in DOMAIN mrow[j] THEN mrow[j][i] ELSE 0
KAt(i, j) == ElSum("K", i, j) + MpcC(i, j)
CAt(i, j) == ElSum("C", i, j)
MAt(i, j) == ElSum("M", i, j)
FEl(i) == LET c(k) == IF i \in DOMAIN loc[k] THEN fm.els[k].F[loc[k][i]] ELSE 0 IN SumTo(c, Len(fm.els))
FMpc(i) == IF \E k \in DOMAIN meq : meq[k] = i THEN fm.mpcs[CHOOSE k \in DOMAIN meq : meq[k] = i].b ELSE 0
FAt(i) == FEl(i) + FMpc(i)
Kfull == [i \in 1..NEq |-> [j \in 1..NEq |-> KAt(i, j)]]
=============================================================================
