---------------------------- MODULE TraceSparse ----------------------------
EXTENDS Sparse, TraceBase

Seqn(q) == DOMAIN q
Known(m) == m \in DOMAIN mt
EntSet(q) == {<<q[k][1], q[k][2]>> : k \in Seqn(q)}
EntVal(q) == [p \in EntSet(q) |-> LET k == CHOOSE k \in Seqn(q) : <<q[k][1], q[k][2]>> = p IN q[k][3]]

\* the observed content of matrix m is its denotation; the observed compressed rows list exactly the pattern
DumpOK(m) ==
  /\ ev.nr = Sp(m).nr /\ ev.nc = Sp(m).nc
  /\ Len(ev.d) = Sp(m).nr
  /\ \A i \in 1..Sp(m).nr : Len(ev.d[i]) = Sp(m).nc /\ \A j \in 1..Sp(m).nc : ev.d[i][j] = Val(m, i, j)
  /\ ev.nv = Cardinality(Sp(m).ent)
  /\ Len(ev.io) = Sp(m).nr + 1 /\ ev.io[1] = 1
  /\ Len(ev.col) = ev.nv /\ Len(ev.val) = ev.nv
  /\ \A i \in 1..Sp(m).nr :
        LET row == {p[2] : p \in {q \in Sp(m).ent : q[1] = i}} IN
          /\ ev.io[i+1] - ev.io[i] = Cardinality(row)
          /\ \A k \in ev.io[i]..(ev.io[i+1] - 1) :
                /\ k \in DOMAIN ev.col /\ ev.col[k] \in row
                /\ ev.val[k] = Val(m, i, ev.col[k])
                /\ k > ev.io[i] => ev.col[k-1] < ev.col[k]

TryOK == CASE ev.op = "ent"  -> ev.ok <=> EntryOK(ev.m, ev.i, ev.j)
           [] ev.op = "addv" -> ev.ok <=> StoreOK(ev.m, ev.i, ev.j)
           [] ev.op = "set"  -> ev.ok <=> StoreOK(ev.m, ev.i, ev.j)
           [] OTHER -> FALSE

\* product with a vector given by its nonzero entries; the nonzero entries of the result are listed
SparseProd(m, tr) ==
  LET q == {<<ev.q[k][1], ev.q[k][2]>> : k \in DOMAIN ev.q}
      V(i, j) == IF tr THEN Val(m, j, i) ELSE Val(m, i, j)
      Row(i) == ev.coef * SumOver(q, LAMBDA x : V(i, x[1]) * x[2])
      J == {x[1] : x \in q}
      R == UNION {{IF p[1] = j THEN p[2] ELSE p[1] : j \in {j \in J : p[1] = j \/ p[2] = j}} : p \in {p \in Sp(m).ent : p[1] \in J \/ p[2] \in J}} \cup J
      N == IF tr THEN Sp(m).nc ELSE Sp(m).nr
  IN /\ {<<ev.o[k][1], ev.o[k][2]>> : k \in DOMAIN ev.o} = {x \in {<<i, Row(i)>> : i \in R \cap (1..N)} : x[2] # 0}
     /\ ev.n = N /\ ev.nv = Cardinality(Sp(m).ent)

Step ==
  CASE ev.e = "begin" -> sp' = Empty /\ mt' = Empty
    [] ev.e = "end"   -> UNCHANGED vars
    [] ev.e = "new"   -> New(ev.m, ev.k, ev.nr, ev.nc, ev.max)
    [] ev.e = "reinit"-> Reinit(ev.m, ev.nr, ev.nc, ev.max)
    [] ev.e = "share" -> Attach(ev.m, ev.k, ev.m2)
    [] ev.e = "setsp" -> Attach(ev.m, Kind(ev.m), ev.m2)
    [] ev.e = "build" -> Load(ev.m, ev.k, ev.nr, ev.nc, EntSet(ev.q), EntVal(ev.q))
    [] ev.e = "ent"   -> AddEntry(ev.m, ev.i, ev.j)
    [] ev.e = "comp"  -> Compress(ev.m) /\ ev.c = TRUE
    [] ev.e = "addv"  -> AddValue(ev.m, ev.i, ev.j, ev.v)
    [] ev.e = "set"   -> SetValue(ev.m, ev.i, ev.j, ev.v)
    [] ev.e = "zero"  -> Zero(ev.m)
    [] ev.e = "rt"    -> Reload(ev.m, ev.m2) /\ ev.tail = ev.exptail
    [] ev.e = "get"   -> ev.v = Val(ev.m, ev.i, ev.j) /\ UNCHANGED vars
    [] ev.e = "dump"  -> DumpOK(ev.m) /\ UNCHANGED vars
    [] ev.e = "comped"-> (ev.c <=> Sp(ev.m).comp) /\ UNCHANGED vars
    [] ev.e = "bv"    -> /\ \A i \in DOMAIN ev.r : ev.r[i] = ev.r0[i] + (IF i <= Sp(ev.m).nr THEN ev.coef * MulRow(ev.m, i, ev.v) ELSE 0)
                         /\ Len(ev.r) = Len(ev.r0) /\ UNCHANGED vars
    [] ev.e = "btv"   -> /\ \A j \in DOMAIN ev.r : ev.r[j] = ev.r0[j] + (IF j <= Sp(ev.m).nc THEN ev.coef * MulCol(ev.m, j, ev.v) ELSE 0)
                         /\ Len(ev.r) = Len(ev.r0) /\ UNCHANGED vars
    [] ev.e \in {"sp", "spt"} -> SparseProd(ev.m, ev.e = "spt") /\ UNCHANGED vars
    [] ev.e = "cmp"   -> (ev.same <=> Same(ev.m, ev.m2)) /\ UNCHANGED vars
    [] ev.e = "try"   -> TryOK /\ UNCHANGED vars
    [] OTHER -> FALSE

TInit == Init /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
