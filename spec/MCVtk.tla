------------------------------- MODULE MCVtk -------------------------------
(* Small models with one or two elements of different shapes; every order of asking for results,    *)
(* starting solutions, changing values and writing steps.                                          *)
EXTENDS Vtk, Json
CONSTANT Depth
VARIABLES hist, nstep
op(o) == hist' = hist \o o
Setups == {
  [p |-> <<<<0, 0, 0>>, <<4, 0, 2>>, <<0, -6, 1>>>>, e |-> <<[t |-> 1, s |-> "LINE", n |-> <<3, 1>>, d |-> <<"UX", "UY">>, ed |-> <<>>], [t |-> 2, s |-> "VERTEX", n |-> <<2>>, d |-> <<"TEMP">>, ed |-> <<"HYDRO_PRESSURE">>]>>],
  [p |-> <<<<0, 0, 0>>, <<4, 0, 2>>, <<0, -6, 1>>>>, e |-> <<[t |-> 1, s |-> "TRIANGLE", n |-> <<2, 3, 1>>, d |-> <<"TEMP">>, ed |-> <<>>], [t |-> 3, s |-> "TWIN_VERTEX", n |-> <<1, 3>>, d |-> <<"ROTX">>, ed |-> <<>>]>>]}
KnownQ(t) == CASE t = 1 -> {<<"S", 5>>, <<"T", 2>>} [] t = 2 -> {<<"S", 1>>, <<"V", 2>>} [] t = 3 -> {<<"V", 3>>}
RV(t, q, w) == [a \in 1..w |-> 10 * t + 3 * q + a]
RECURSIVE Cat(_, _)
Cat(f(_), S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN f(x) \o Cat(f, S \ {x})
SetupOps(s) == LET nn == Len(s.p)
  el(k) == <<<<"el", s.e[k].s, s.e[k].t>> \o s.e[k].n \o <<";">> \o s.e[k].d \o <<";">> \o s.e[k].ed>>
  rs(k) == LET one(x) == <<<<"res", k, x[1], x[2]>> \o RV(s.e[k].t, x[2], Width(x[1]))>> IN Cat(one, KnownQ(s.e[k].t)) IN
  <<<<"nodes">> \o [k \in 1..(3 * nn) |-> s.p[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]>> \o el(1) \o el(2) \o <<<<"init">>>> \o rs(1) \o rs(2) \o <<<<"proc", 1, "out">>>>
Init == \E s \in Setups :
  /\ pos = s.p /\ els = [k \in 1..2 |-> [t |-> s.e[k].t, s |-> s.e[k].s, n |-> s.e[k].n]]
  /\ used = UNION {{<<s.e[k].n[i], s.e[k].d[j]>> : i \in DOMAIN s.e[k].n, j \in DOMAIN s.e[k].d} : k \in 1..2}
  /\ eused = UNION {{<<k, s.e[k].ed[j]>> : j \in DOMAIN s.e[k].ed} : k \in 1..2}
  /\ u = <<>> /\ eu = <<>> /\ r = <<>>
  /\ res = [x \in UNION {{<<k, q[1], q[2]>> : q \in KnownQ(s.e[k].t)} : k \in 1..2} |-> RV(s.e[x[1]].t, x[3], Width(x[2]))]
  /\ procs = (1 :> [name |-> "out", all |-> FALSE, reg |-> {}, nt |-> {}, et |-> {}, ask |-> {}, files |-> <<>>])
  /\ hist = SetupOps(s) /\ nstep = 0
Started == <<"out", 0>> \in DOMAIN procs[1].files
Pick(S) == {CHOOSE x \in S : TRUE}
Next == Len(hist) < Depth + 12 /\
  \/ \E b \in BOOLEAN : b # procs[1].all /\ WriteAll(1, b) /\ op(<<<<"all", 1, IF b THEN 1 ELSE 0>>>>) /\ UNCHANGED nstep
  \/ \E x \in {<<"S", {5, 2}>>, <<"V", {2}>>, <<"T", {2}>>} : Register(1, x[1], x[2]) /\ op(<<<<"reg", 1, x[1]>> \o (IF x[2] = {2} THEN <<2>> ELSE <<5, 2>>)>>) /\ UNCHANGED nstep
  \/ Pre(1) /\ op(<<<<"pre", 1>>>>) /\ nstep' = 1
  \/ nstep > 0 /\ Process(1, nstep) /\ op(<<<<"process", 1, nstep>>>>) /\ nstep' = nstep + 1
  \/ \E k \in Pick(used) \cup Pick(used \ Pick(used)) : Val(u, k) = 0 /\ SetU(k :> 7) /\ op(<<<<"u", k[1], k[2], 7>>>>) /\ UNCHANGED nstep
  \/ \E k \in Pick(used) : Val(r, k) = 0 /\ r' = (k :> -9) /\ UNCHANGED <<pos, els, used, eused, u, eu, res, procs>> /\ op(<<<<"r", k[1], k[2], -9>>>>) /\ UNCHANGED nstep
  \/ \E k \in eused : Val(eu, k) = 0 /\ eu' = (k :> 5) /\ UNCHANGED <<pos, els, used, eused, u, r, res, procs>> /\ op(<<<<"eu", k[1], k[2], 5>>>>) /\ UNCHANGED nstep
Spec == Init /\ [][Next]_<<vars, hist, nstep>>
View == <<vars, nstep, Len(hist)>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
(* ---- properties ------------------------------------------------------------------------------ *)
F == procs[1].files
Sections == \A x \in DOMAIN F : Len(F[x].pts) = Len(pos) /\ Len(F[x].cells) = Len(els) /\ \A f \in F[x].fields : Len(f[4]) = (IF f[1] = "P" THEN Len(pos) ELSE Len(els))
CellsValid == \A x \in DOMAIN F : \A k \in DOMAIN F[x].cells : Len(F[x].cells[k]) = NNodes(els[k].s) /\ \A i \in DOMAIN F[x].cells[k] : F[x].cells[k][i] \in 0..(Len(pos) - 1)
UniqueNames == \A x \in DOMAIN F : \A f, g \in F[x].fields : f[1] = g[1] /\ f[3] = g[3] => f = g
Numbered == nstep > 0 => {<<"out", k>> : k \in 0..(nstep - 1)} \subseteq DOMAIN F
Geometry == \A x, y \in DOMAIN F : F[x].pts = F[y].pts
\* results an element does not know are zero; files once written stay (until their number is written again)
Zeroes == \A x \in DOMAIN F : \A f \in F[x].fields : f[1] = "C" /\ f[3] = "FLUX" => \A k \in DOMAIN els : <<k, "V", 2>> \notin DOMAIN res => f[4][k] = <<0, 0, 0>>
Kept == [][DOMAIN F \subseteq DOMAIN F']_<<vars, hist, nstep>>
=============================================================================
