------------------------------- MODULE MCFE -------------------------------
(* Exhaustive exploration of the model life cycle of FE: mesh, DoF registration, constraining,     *)
(* numbering, allocation, assembly, dropping the solution data and starting over.  Every generated *)
(* transition is emitted as a script.                                                              *)
EXTENDS FE, Json
CONSTANTS MaxEls, MaxMpcs, Depth
VARIABLE hist
op(o) == hist' = Append(hist, o)
NN == 2
E(n, d, ed, k, f) == [nodes |-> n, dofs |-> d, edofs |-> ed, K |-> k, C |-> k, M |-> k, F |-> f, tang |-> 1, nl |-> FALSE]
Spring == <<<<2, -2>>, <<-2, 2>>>>
Diag2 == <<<<3, 1>>, <<1, 5>>>>
\* the catalogue: record and script line
Cat == {
  <<E(<<1, 2>>, <<"UX">>, <<>>, Spring, <<0, 1>>), "elem LINE 1 1 0 D UX E N 1 2 K 2 -2 2 F 0 1 C 2 -2 2 M 2 -2 2">>,
  <<E(<<2, 1>>, <<"UX">>, <<>>, Spring, <<4, 0>>), "elem TWIN 2 1 0 D UX E N 2 1 K 2 -2 2 F 4 0 C 2 -2 2 M 2 -2 2">>,
  <<E(<<2>>, <<"TEMP", "UY">>, <<>>, Diag2, <<1, 7>>), "elem VERTEX 3 1 0 D TEMP UY E N 2 K 3 1 5 F 1 7 C 3 1 5 M 3 1 5">>,
  <<E(<<1>>, <<"UX">>, <<"TEMP">>, Diag2, <<1, 7>>), "elem VERTEX 0 1 0 D UX E TEMP N 1 K 3 1 5 F 1 7 C 3 1 5 M 3 1 5">> }
Mp == { <<[t |-> <<<<1, "UX", 1>>, <<2, "UX", -2>>>>, b |-> 3], "mpc 3 1 UX 1 2 UX -2">> }
MpcLegal == \A k \in DOMAIN fm.mpcs : \A j \in DOMAIN fm.mpcs[k].t : <<"N", fm.mpcs[k].t[j][1], fm.mpcs[k].t[j][2]>> \in Wanted
\* some numbering satisfying the rule (the code's own choice is accepted as long as it is one)
Enum(A, from) == CHOOSE f \in [A -> from..(from + Cardinality(A) - 1)] : \A x, y \in A : x # y => f[x] # f[y]
ANumbering == Enum(con, 1) @@ Enum(reg \ con, NCon + 1)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E c \in Cat : phase \in {"mesh", "assembled"} /\ Len(fm.els) < MaxEls /\ AddElem(c[1]) /\ op(c[2])
     \/ \E m \in Mp : phase = "mesh" /\ Len(fm.mpcs) < MaxMpcs /\ AddMpc(m[1]) /\ op(m[2])
     \/ phase = "mesh" /\ ~fm.tr /\ SetTransient(TRUE) /\ op("transient 1")
     \/ phase \in {"mesh", "numbered", "assembled"} /\ fm.els # <<>> /\ MpcLegal /\ InitDofs /\ op("initdofs")
     \/ \E a \in reg : Constrain(a) /\ op("con " \o a[1] \o " " \o ToString(a[2]) \o " " \o a[3])
     \/ phase = "dofs" /\ NDof > NCon /\ Number(ANumbering, [k \in DOMAIN fm.mpcs |-> NDof + k], EmptyF) /\ op("number")
     \/ Alloc /\ op("initsol")
     \/ phase = "alloc" /\ phase' = "assembled" /\ UNCHANGED <<fm, reg, con, eq, meq, req, loc, mrow>> /\ op("assemble")
     \/ phase = "assembled" /\ phase' = "assembled2" /\ UNCHANGED <<fm, reg, con, eq, meq, req, loc, mrow>> /\ op("assemble")
     \/ phase \in {"dofs", "numbered", "assembled", "assembled2"} /\ DropSolution /\ op("delsol")
MCInit == fm = [NoModel EXCEPT !.nn = NN, !.pos = <<<<0, 0, 0>>, <<1, 0, 0>>>>] /\ phase = "mesh" /\ reg = {} /\ con = {} /\ eq = EmptyF /\ meq = <<>> /\ req = EmptyF /\ loc = <<>> /\ mrow = EmptyF
          /\ hist = <<"fe 1 2 0 0 0 1 0 0">>
Spec == MCInit /\ [][Next]_<<fevars, hist>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
View == <<fm, phase, reg, con, Len(hist)>>
\* consequences of the definitions
Symmetric == phase \in {"assembled", "assembled2"} => \A i, j \in 1..NEq : KAt(i, j) = KAt(j, i) /\ CAt(i, j) = CAt(j, i)
Partition == phase \in {"numbered", "alloc", "assembled", "assembled2"} => \A a \in con, b \in reg \ con : eq[a] < eq[b] /\ eq[b] <= NDof
\* only DoFs of a common element or a constraint equation are coupled
Local == phase \in {"assembled", "assembled2"} =>
  \A a, b \in reg : KAt(eq[a], eq[b]) # 0 => \E k \in DOMAIN fm.els : {a, b} \subseteq ElKeys(k)
LambdaZero == phase \in {"assembled", "assembled2"} => \A i, j \in (NDof + 1)..NEq : KAt(i, j) = 0
=============================================================================
