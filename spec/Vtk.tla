-------------------------------- MODULE Vtk --------------------------------
(* The VTK post-processor: what each file it writes has to contain, given the state of the model.   *)
(* Values are integers (quarters in the driver).  els[k] = [t (type), s (shape), n (nodes)];        *)
(* used/eused: keys <<node or element, DoF>>; u, eu, r: values of keys; res: <<element, kind,       *)
(* query>> -> components, defined exactly for the queries the element answers.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pos, els, used, eused, u, eu, r, res, procs
st == <<pos, els, used, eused, u, eu, r, res>>
vars == <<pos, els, used, eused, u, eu, r, res, procs>>

CellType(s) == CASE s = "VERTEX" -> 1 [] s = "TWIN_VERTEX" -> 2 [] s = "LINE" -> 3 [] s = "TRIANGLE" -> 5 [] s = "QUAD" -> 9 [] s = "TETRA" -> 10 [] s = "HEXAHEDRON" -> 12 [] s = "WEDGE" -> 13
NNodes(s) == CASE s = "VERTEX" -> 1 [] s = "TWIN_VERTEX" -> 2 [] s = "LINE" -> 2 [] s = "TRIANGLE" -> 3 [] s = "QUAD" -> 4 [] s = "TETRA" -> 4 [] s = "HEXAHEDRON" -> 8 [] s = "WEDGE" -> 6
Disp == <<"UX", "UY", "UZ">>
Labels(k) == CASE k = "S" -> <<"S_P", "W", "WU", "WP", "VOL">> [] k = "V" -> <<"IC", "FLUX", "GRADT">> [] k = "T" -> <<"COUCHY", "PK2", "E", "C", "TSTRAIN">>
Comp == <<"XX", "XY", "XZ", "YY", "YZ", "ZZ">>
Width(k) == CASE k = "S" -> 1 [] k = "V" -> 3 [] k = "T" -> 6
Val(f, key) == IF key \in DOMAIN f THEN f[key] ELSE 0
Types(S) == {k[2] : k \in S}
Answers(k, kind) == {q \in 1..Len(Labels(kind)) : <<k, kind, q>> \in DOMAIN res}

(* ---- the contents of a file for a processor with the known DoF types nt, et and queries ask ---- *)
Scalar(n, f(_)) == [i \in 1..n |-> <<f(i)>>]
PointFields(p) ==
  LET nn == Len(pos)
      vec(f) == [i \in 1..nn |-> [a \in 1..3 |-> Val(f, <<i, Disp[a]>>)]]
      sc(d) == [i \in 1..nn |-> <<Val(u, <<i, d>>)>>] IN
  (IF \E a \in 1..3 : Disp[a] \in p.nt THEN {<<"P", "VECTORS", "disp", vec(u)>>, <<"P", "VECTORS", "reaction", vec(r)>>} ELSE {})
  \cup {<<"P", "SCALARS", d, sc(d)>> : d \in p.nt \ {"UX", "UY", "UZ"}}
CellFields(p) ==
  LET en == Len(els)
      cmp(k, kind, q, a) == IF <<k, kind, q>> \in DOMAIN res THEN res[<<k, kind, q>>][a] ELSE 0
      sc(kind, q, a) == [k \in 1..en |-> <<cmp(k, kind, q, a)>>] IN
  {<<"C", "SCALARS", d, [k \in 1..en |-> <<Val(eu, <<k, d>>)>>]>> : d \in p.et}
  \cup {<<"C", "SCALARS", Labels("S")[x[2]], sc("S", x[2], 1)>> : x \in {y \in p.ask : y[1] = "S"}}
  \cup {<<"C", "VECTORS", Labels("V")[x[2]], [k \in 1..en |-> [a \in 1..3 |-> cmp(k, "V", x[2], a)]]>> : x \in {y \in p.ask : y[1] = "V"}}
  \cup UNION {{<<"C", "SCALARS", Labels("T")[x[2]] \o "_" \o Comp[a], sc("T", x[2], a)>> : a \in 1..6} : x \in {y \in p.ask : y[1] = "T"}}
Content(p) == [pts |-> pos, cells |-> [k \in 1..Len(els) |-> [i \in 1..Len(els[k].n) |-> els[k].n[i] - 1]],
               types |-> [k \in 1..Len(els) |-> CellType(els[k].s)], fields |-> PointFields(p) \cup CellFields(p)]

(* ---- actions ---------------------------------------------------------------------------------- *)
NewProc(i, name) == i \notin DOMAIN procs /\ procs' = procs @@ (i :> [name |-> name, all |-> FALSE, reg |-> {}, nt |-> {}, et |-> {}, ask |-> {}, files |-> <<>>]) /\ UNCHANGED st
WriteAll(i, b) == procs' = [procs EXCEPT ![i].all = b] /\ UNCHANGED st
Register(i, kind, Q) == procs' = [procs EXCEPT ![i].reg = @ \cup {<<kind, q>> : q \in Q}] /\ UNCHANGED st
Revealed == {<<kk[2], kk[3]>> : kk \in DOMAIN res}
\* at the start of a solution: which fields there are is decided, file 0 is written
Pre(i) == LET p0 == procs[i] p1 == [p0 EXCEPT !.nt = Types(used), !.et = Types(eused), !.reg = IF p0.all THEN @ \cup Revealed ELSE @] p == [p1 EXCEPT !.ask = p1.reg] IN
  procs' = [procs EXCEPT ![i] = [p EXCEPT !.files = (<<p.name, 0>> :> Content(p)) @@ @]] /\ UNCHANGED st
\* results asked for in between are written from then on
Process(i, k) == LET p == [procs[i] EXCEPT !.ask = procs[i].reg] IN
  procs' = [procs EXCEPT ![i] = [p EXCEPT !.files = (<<p.name, k>> :> Content(p)) @@ @]] /\ UNCHANGED st
Post(i, k) == UNCHANGED vars
SetU(f) == u' = f @@ u /\ UNCHANGED <<pos, els, used, eused, eu, r, res, procs>>
=============================================================================
