----------------------------- MODULE TraceDofs -----------------------------
EXTENDS Dofs, TraceBase
AllT == <<"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP">>
SetOf(q) == {q[k] : k \in DOMAIN q}
DumpOK == /\ ev.n = n /\ ev.cnt = Count /\ SetOf(ev.u) = Types /\ Len(ev.u) = Cardinality(Types)
          /\ LET shown == {ev.v[k].i : k \in DOMAIN ev.v} IN Cardinality(shown) = Len(ev.v) /\ shown \subseteq 1..n
                 /\ (IF Count > 5000 THEN {1, n} ELSE IF n > 200 THEN {x[1] : x \in DOMAIN d} \cup {1, n} ELSE 1..n) \subseteq shown
          /\ \A k0 \in DOMAIN ev.v : LET q == ev.v[k0] e == ev.v[k0].i IN
               /\ {q.l[k][1] : k \in DOMAIN q.l} = Of(e) /\ Len(q.l) = Cardinality(Of(e))
               /\ \A k \in DOMAIN q.l : <<q.l[k][2], q.l[k][3] = 1>> = d[<<e, q.l[k][1]>>]
               /\ \A k \in DOMAIN q.s : \* by lookup: type, used, found, eq, constrained
                    LET t == q.s[k][1] IN
                    IF Used(e, t) THEN q.s[k][2] = 1 /\ q.s[k][3] = 1 /\ <<q.s[k][4], q.s[k][5] = 1>> = d[<<e, t>>]
                    ELSE q.s[k][2] = 0 /\ q.s[k][3] = 0
Same == UNCHANGED dvars
Step == CASE ev.e = "begin" -> n' = 0 /\ d' = [x \in {} |-> <<0, FALSE>>]
          [] ev.e = "end" -> Same
          [] ev.e = "create" -> Create(ev.k)
          [] ev.e = "add" -> Add(ev.n, SetOf(ev.t))
          [] ev.e = "fill" -> Fill(SetOf(ev.t))
          [] ev.e = "mark" -> Mark(ev.n, ev.t, ev.q, ev.c = 1)
          [] ev.e = "clear" -> Clear
          [] ev.e = "dump" -> DumpOK /\ Same
          [] ev.e = "labels" -> Same /\ ev.n = Len(AllT) /\ ev.l = AllT /\ ev.b = AllT
          [] OTHER -> FALSE
TInit == DInit /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<dvars, l>>
=============================================================================
