------------------------------ MODULE MCSolve ------------------------------
(* The linear static solution of small models, computed exactly (Cramer's rule): what the solution *)
(* relations imply, and every such model as a script.                                              *)
EXTENDS FE, Json
CONSTANTS MaxEls, MaxMpcs, MaxFix, MaxLoad, WithPP, Solves
VARIABLES st,      \* "model", "bc", "pre", "run", "post", "done"
          fixes, loads,   \* sets of <<key, value>>
          sol,     \* <<determinant, scaled unknowns (function of equation)>>
          pps, k,  \* post-processors (number), next one to call
          rnd,     \* number of completed solutions
          hist
vars == <<fevars, st, fixes, loads, sol, pps, k, rnd, hist>>
E(n, d, kk, f) == [nodes |-> n, dofs |-> d, edofs |-> <<>>, K |-> kk, C |-> kk, M |-> kk, F |-> f, tang |-> 1, nl |-> FALSE]
Spring == <<<<2, -2>>, <<-2, 2>>>>
Spring3 == <<<<3, -3>>, <<-3, 3>>>>
Diag2 == <<<<3, 1>>, <<1, 5>>>>
Cat == {
  <<E(<<1, 2>>, <<"UX">>, Spring, <<0, 1>>), "elem LINE 1 1 0 D UX E N 1 2 K 2 -2 2 F 0 1 C 2 -2 2 M 2 -2 2">>,
  <<E(<<3, 2>>, <<"UX">>, Spring3, <<0, 0>>), "elem LINE 2 1 0 D UX E N 3 2 K 3 -3 3 F 0 0 C 3 -3 3 M 3 -3 3">>,
  <<E(<<2>>, <<"UY", "UX">>, Diag2, <<1, 0>>), "elem VERTEX 3 1 0 D UY UX E N 2 K 3 1 5 F 1 0 C 3 1 5 M 3 1 5">>,
  <<E(<<1>>, <<"UZ">>, <<<<4>>>>, <<0>>), "elem VERTEX 0 1 0 D UZ E N 1 K 4 F 0 C 4 M 4">> }
Mp == { <<[t |-> <<<<1, "UX", 1>>, <<2, "UX", -2>>>>, b |-> 3], "mpc 3 1 UX 1 2 UX -2">>,
        <<[t |-> <<<<2, "UX", 1>>, <<2, "UY", 1>>>>, b |-> 0], "mpc 0 2 UX 1 2 UY 1">> }
MpcLegal == \A q \in DOMAIN fm.mpcs : \A j \in DOMAIN fm.mpcs[q].t : <<"N", fm.mpcs[q].t[j][1], fm.mpcs[q].t[j][2]>> \in Wanted
Enum(A, from) == CHOOSE f \in [A -> from..(from + Cardinality(A) - 1)] : \A x, y \in A : x # y => f[x] # f[y]
Numb == Enum(con, 1) @@ Enum(reg \ con, NCon + 1)
op(o) == hist' = Append(hist, o)
\* determinant by expansion along the first row of the listed rows/columns
RECURSIVE Det(_, _)
Det(A, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN A[1][1] ELSE
  LET minor(j) == [r \in 1..(n - 1) |-> [c \in 1..(n - 1) |-> A[r + 1][IF c < j THEN c ELSE c + 1]]]
      term(j) == IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(minor(j), n - 1) IN SumTo(term, n)
FixOf(key) == (CHOOSE f \in fixes : f[1] = key)[2]
LoadOf(key) == LET s == {f \in loads : f[1] = key} IN IF s = {} THEN 0 ELSE (CHOOSE f \in s : TRUE)[2]
NU == NEq - NCon
A22 == [i \in 1..NU |-> [j \in 1..NU |-> KAt(NCon + i, NCon + j)]]
KeyAt(i) == CHOOSE a \in reg : eq[a] = i
RhsAt(i) == FAt(i) + (IF i <= NDof THEN LoadOf(KeyAt(i)) ELSE 0) - LET c(j) == KAt(i, j) * FixOf(KeyAt(j)) IN SumTo(c, NCon)
Solve == LET A == A22 d == Det(A, NU) b == [i \in 1..NU |-> RhsAt(NCon + i)] IN
  <<d, [i \in 1..NEq |-> IF i <= NCon THEN d * FixOf(KeyAt(i)) ELSE Det([r \in 1..NU |-> [c \in 1..NU |-> IF c = i - NCon THEN b[r] ELSE A[r][c]]], NU)]>>
Keys == {<<"N", n, d>> : n \in 1..3, d \in {"UX", "UY", "UZ"}}
Before(x, S) == \A y \in S : y[1] # x[1]
Init == /\ fm = [NoModel EXCEPT !.S = 10000, !.nn = 3, !.pos = <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 2, 0>>>>] /\ phase = "mesh" /\ reg = {} /\ con = {} /\ eq = EmptyF /\ meq = <<>> /\ req = EmptyF /\ loc = <<>> /\ mrow = EmptyF
        /\ st = "model" /\ fixes = {} /\ loads = {} /\ sol = <<>> /\ pps = 0 /\ k = 0 /\ rnd = 0 /\ hist = <<"fe 10000 3 0 0 0 1 0 0 1 2 0">>
FE0 == UNCHANGED fevars
Rest(x) == UNCHANGED x
Steps ==
  \/ st = "model" /\ \E c \in Cat : Len(fm.els) < MaxEls /\ AddElem(c[1]) /\ op(c[2]) /\ Rest(<<st, fixes, loads, sol, pps, k>>)
  \/ st = "model" /\ \E m \in Mp : Len(fm.mpcs) < MaxMpcs /\ m[1] \notin SeqSet(fm.mpcs) /\ AddMpc(m[1]) /\ op(m[2]) /\ Rest(<<st, fixes, loads, sol, pps, k>>)
  \/ st = "model" /\ fm.els # <<>> /\ MpcLegal /\ FE0 /\ st' = "pps" /\ op("solver lin") /\ Rest(<<fixes, loads, sol, pps, k>>)
  \/ st = "pps" /\ pps < WithPP /\ FE0 /\ pps' = pps + 1 /\ op("rec " \o ToString(10 + pps + 1) \o (IF pps = 0 THEN " 1" ELSE " 0")) /\ Rest(<<st, fixes, loads, sol, k>>)
  \/ st = "pps" /\ pps > 0 /\ FE0 /\ st' = "bc" /\ Rest(<<fixes, loads, sol, pps, k, hist>>)
  \/ st = "bc" /\ Cardinality(fixes) < MaxFix /\ (loads = {} \/ rnd > 0) /\ \E a \in Wanted, v \in {0, 2} : Before(<<a>>, fixes) /\ FE0 /\ fixes' = fixes \cup {<<a, v>>}
       /\ op("fix " \o ToString(a[2]) \o " " \o a[3] \o " " \o ToString(v)) /\ Rest(<<st, loads, sol, pps, k>>)
  \/ st = "bc" /\ Cardinality(loads) < MaxLoad /\ \E a \in Wanted, v \in {5} : Before(<<a>>, loads) /\ FE0 /\ loads' = loads \cup {<<a, v>>}
       /\ op("load " \o ToString(a[2]) \o " " \o a[3] \o " " \o ToString(v)) /\ Rest(<<st, fixes, sol, pps, k>>)
  \/ \* registration, constraining, numbering
     st = "bc" /\ phase = "mesh" /\ reg' = Wanted /\ con' = {f[1] : f \in fixes} /\ phase' = "dofs" /\ st' = "numbering" /\ UNCHANGED <<fm, eq, meq, req, loc, mrow, fixes, loads, sol, pps, k, hist>>
  \/ st = "numbering" /\ NDof > NCon /\ Number(Numb, [q \in DOMAIN fm.mpcs |-> NDof + q], EmptyF) /\ st' = "pre" /\ k' = 0 /\ Rest(<<fixes, loads, sol, pps, hist>>)
  \/ st = "pre" /\ k < pps /\ FE0 /\ k' = k + 1 /\ Rest(<<st, fixes, loads, sol, pps, hist>>)
  \/ \* one solution; only if the problem has one
     st = "pre" /\ k = pps /\ Det(A22, NU) # 0 /\ FE0 /\ sol' = Solve /\ st' = "run" /\ k' = 0 /\ op("solve") /\ Rest(<<fixes, loads, pps>>)
  \/ st = "run" /\ k < pps /\ FE0 /\ k' = k + 1 /\ Rest(<<st, fixes, loads, sol, pps, hist>>)
  \/ st = "run" /\ k = pps /\ FE0 /\ k' = 0 /\ st' = "post" /\ Rest(<<fixes, loads, sol, pps, hist>>)
  \/ st = "post" /\ k < pps /\ FE0 /\ k' = k + 1 /\ Rest(<<st, fixes, loads, sol, pps, hist>>)
  \/ st = "post" /\ k = pps /\ FE0 /\ st' = "done" /\ rnd' = rnd + 1 /\ Rest(<<fixes, loads, sol, pps, k, hist>>)
Again == \* the same solver is asked once more, after further boundary conditions perhaps
     st = "done" /\ rnd < Solves /\ DropSolution /\ st' = "bc" /\ sol' = <<>> /\ Rest(<<fixes, loads, pps, k, rnd, hist>>)
Next == (Steps /\ (rnd' = rnd \/ st' = "done")) \/ Again
Spec == Init /\ [][Next]_vars
View == <<fm, st, fixes, loads, pps, k, rnd, phase>>
Emit == IF st' = "run" /\ st = "pre" THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE
\* ---- what the solution relations imply (scaled by the determinant)
Det0 == sol[1]
Val(i) == sol[2][i]
RowV(i) == LET c(j) == KAt(i, j) * Val(j) IN SumTo(c, NEq)
Reac(i) == RowV(i) - Det0 * FAt(i) - Det0 * 0
HasSol == sol # <<>>
Equilibrium == HasSol => \A i \in (NCon + 1)..NEq : RowV(i) = Det0 * (FAt(i) + IF i <= NDof THEN LoadOf(KeyAt(i)) ELSE 0)
MpcHolds == HasSol => \A q \in DOMAIN fm.mpcs : RowV(meq[q]) = Det0 * fm.mpcs[q].b
PrescribedHold == HasSol => \A f \in fixes : Val(eq[f[1]]) = Det0 * f[2]
\* springs alone: reactions, loads and internal loads are in balance
OnlySprings == fm.mpcs = <<>> /\ \A q \in DOMAIN fm.els : Len(fm.els[q].nodes) = 2
Balance == HasSol /\ OnlySprings =>
  LET c(i) == Reac(i) + Det0 * FAt(i) IN SumTo(c, NDof) = 0
\* a rigid translation is what an unloaded chain of springs with one prescribed value does
Chain == HasSol /\ OnlySprings /\ loads = {} /\ Cardinality(fixes) = 1 /\ (\A q \in DOMAIN fm.els : fm.els[q].F = <<0, 0>>) =>
  \A i, j \in 1..NDof : Val(i) = Val(j)
=============================================================================
