----------------------------- MODULE TraceElem -----------------------------
(* Recorded assemblies and results of the linear elements against Elements.                        *)
EXTENDS Elements, TraceBase
VARIABLES S, ks, U
vars == <<pos, els, S, ks, U, l>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* S times a rational, rounded down
Sc(r) == LET n == IF r[2] < 0 THEN -r[1] ELSE r[1] d == Abs(r[2]) IN S * (n \div d) + (S * (n % d)) \div d
LocN(e, n) == {i \in DOMAIN e.n : e.n[i] = n}
SumEls(f(_)) == SumN(f, Len(els))
\* contribution of element k to entry (x, y); every element lists a node at most once
KEnt(k, x, y) == LET e == els[k] IN
  IF x[2] \in DofsOf(e) /\ y[2] \in DofsOf(e) /\ LocN(e, x[1]) # {} /\ LocN(e, y[1]) # {}
  THEN Sc(KOf(e, CHOOSE i \in LocN(e, x[1]) : TRUE, Axis(x[2]), CHOOSE i \in LocN(e, y[1]) : TRUE, Axis(y[2]))) ELSE 0
CEnt(k, x, y) == LET e == els[k] IN
  IF e.t = "QUADTH" /\ x[2] = "TEMP" /\ y[2] = "TEMP" /\ LocN(e, x[1]) # {} /\ LocN(e, y[1]) # {}
  THEN Sc(COf(e, CHOOSE i \in LocN(e, x[1]) : TRUE, CHOOSE i \in LocN(e, y[1]) : TRUE)) ELSE 0
FEnt(k, x) == LET e == els[k] IN IF x[2] \in DofsOf(e) /\ LocN(e, x[1]) # {} THEN Sc(FOf(e, CHOOSE i \in LocN(e, x[1]) : TRUE, Axis(x[2]))) ELSE 0
\* a quadrilateral which is no parallelogram (and fully integrated) is judged by what it makes of constant and linear fields
Curved(e) == e.t = "QUADTH" /\ QOrd(e) > 1 /\ ~Parallelogram(e)
CurvedNodes == UNION {{els[k].n[i] : i \in 1..4} : k \in {q \in DOMAIN els : Curved(els[q])}}
Judged(x, y) == ~(x[2] = "TEMP" /\ y[2] = "TEMP" /\ \E k \in DOMAIN els : Curved(els[k]) /\ LocN(els[k], x[1]) # {} /\ LocN(els[k], y[1]) # {})
Tol == Len(els) + 1
KOK == LET N == Len(ev.k) IN \A p, q \in 1..N : LET x == ev.k[p] y == ev.k[q] c(k) == KEnt(k, x, y) IN
  Judged(x, y) => Abs(ev.K[p][q] - SumEls(c)) <= Tol
\* row of the field t (a function of nodes) at key x: sum over elements of the exact integrals
FieldRow(x, t(_)) == LET c(k) == LET e == els[k] IN
    IF x[2] \in DofsOf(e) /\ e.t \in {"QUADTH", "LINETH", "TETRA1"} /\ LocN(e, x[1]) # {}
    THEN LET i == CHOOSE i \in LocN(e, x[1]) : TRUE IN
         IF Curved(e) THEN LET b == QB(e, i) IN Sc(<<e.p[1] * (b[1] * t(<<1, 0>>) + b[2] * t(<<0, 1>>)), 2>>)
         ELSE LET r(j) == Sc(KOf(e, i, 0, j, 0)) * t(P(e, j)) IN SumN(r, Len(e.n)) ELSE 0 IN SumEls(c)
CurvedOK == LET N == Len(ev.k) IN \A p \in 1..N : LET x == ev.k[p] IN x[2] = "TEMP" /\ x[1] \in CurvedNodes =>
  \A m \in 0..2 : LET t(v) == IF m = 0 THEN 0 ELSE v[m]
                      c(q) == IF ev.k[q][2] = "TEMP" THEN ev.K[p][q] * (IF m = 0 THEN 1 ELSE pos[ev.k[q][1]][m]) ELSE 0
                      w(q) == IF m = 0 THEN 1 ELSE 1 + Abs(pos[ev.k[q][1]][m])
                      one(v) == 1 IN
    LET want == IF m = 0 THEN LET cc(k) == LET e == els[k] IN IF ~Curved(e) /\ x[2] \in DofsOf(e) /\ LocN(e, x[1]) # {} THEN LET i == CHOOSE i \in LocN(e, x[1]) : TRUE r(j) == Sc(KOf(e, i, 0, j, 0)) IN SumN(r, Len(e.n)) ELSE 0 IN SumEls(cc)
                ELSE FieldRow(x, t) IN Abs(SumN(c, N) - want) <= (Tol + 1) * SumN(w, N)
COK == LET N == Len(ev.k) IN \A p, q \in 1..N : LET x == ev.k[p] y == ev.k[q] c(k) == CEnt(k, x, y) IN Abs(ev.C[p][q] - SumEls(c)) <= Tol /\ ev.M[p][q] = 0
FOK == LET N == Len(ev.k) IN \A p \in 1..N : LET x == ev.k[p] c(k) == FEnt(k, x) IN Abs(ev.F[p] - SumEls(c)) <= Tol
KeySet == {<<ev.k[p][1], ev.k[p][2]>> : p \in DOMAIN ev.k}
Built == KeySet = Keys /\ Len(ev.k) = Cardinality(Keys) /\ KOK /\ CurvedOK /\ FOK /\ (ev.tr => COK)
         /\ \A p, q \in DOMAIN ev.k : ev.K[p][q] = ev.K[q][p]
ResOf(k, name) == {i \in DOMAIN ev.r[k] : ev.r[k][i][1] = name}
ResOK == Len(ev.r) = Len(els) /\ \A k \in DOMAIN els : LET want == Results(els[k], U) IN
  \A nm \in DOMAIN want : \E i \in ResOf(k, nm) : LET got == ev.r[k][i][2] IN Len(got) = Len(want[nm]) /\ \A v \in DOMAIN got : Abs(got[v] - Sc(want[nm][v])) <= 2
Step ==
  CASE ev.e = "begin" -> pos' = <<>> /\ els' = <<>> /\ S' = 1 /\ ks' = <<>> /\ U' = <<>>
    [] ev.e = "end" -> UNCHANGED <<pos, els, S, ks, U>>
    [] ev.e = "nodes" -> pos' = ev.p /\ S' = ev.S /\ els' = <<>> /\ UNCHANGED <<ks, U>>
    [] ev.e = "el" -> els' = Append(els, [t |-> ev.t, n |-> ev.n, p |-> ev.p]) /\ UNCHANGED <<pos, S, ks, U>>
    [] ev.e = "built" -> Built /\ ks' = ev.k /\ UNCHANGED <<pos, els, S, U>>
    [] ev.e = "set" -> Len(ev.u) = Len(ks) /\ U' = [x \in Keys |-> ev.u[CHOOSE p \in DOMAIN ks : ks[p][1] = x[1] /\ ks[p][2] = x[2]]] /\ UNCHANGED <<pos, els, S, ks>>
    [] ev.e = "res" -> ResOK /\ UNCHANGED <<pos, els, S, ks, U>>
    [] OTHER -> FALSE
TInit == pos = <<>> /\ els = <<>> /\ S = 1 /\ ks = <<>> /\ U = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
=============================================================================
