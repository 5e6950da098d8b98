------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices with a (possibly shared) sparsity pattern.                                     *)
(* Life cycle of a pattern: entries are registered, then the pattern is compressed and fixed.     *)
(* Life cycle of a matrix: values exist once the matrix was compressed; from then on it denotes   *)
(* the map position -> accumulated value; positions outside the pattern read as zero and cannot   *)
(* be written.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLES sp,   \* sparsity id -> [nr, nc, cap, comp, ent]
          mt    \* matrix id   -> [kind, sid, alloc, val]
vars == <<sp, mt>>

Empty == [x \in {} |-> x]
Init == sp = Empty /\ mt = Empty

Canon(kind, i, j) == IF kind = "sym" /\ i > j THEN <<j, i>> ELSE <<i, j>>
Kind(m) == mt[m].kind
Sp(m)   == sp[mt[m].sid]
Pos(m, i, j) == Canon(Kind(m), i, j)
RowCount(s, i) == Cardinality({p \in s.ent : p[1] = i})
NewSid == Cardinality(DOMAIN sp) + 1
Cap(max, nc) == IF max < nc THEN max ELSE nc
With(f, k, v) == (k :> v) @@ f
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

\* the denotation
Val(m, i, j) == LET p == Pos(m, i, j) IN IF p \in DOMAIN mt[m].val THEN mt[m].val[p] ELSE 0
MulRow(m, i, v) == SumOver(1..Sp(m).nc, LAMBDA j : Val(m, i, j) * v[j])
MulCol(m, j, v) == SumOver(1..Sp(m).nr, LAMBDA i : Val(m, i, j) * v[i])

Zeros(ent) == [p \in ent |-> 0]

-----------------------------------------------------------------------------
(* Preconditions: an operation whose guard is false is refused (loudly), never executed partly.   *)
EntryOK(m, i, j) ==
  LET p == Pos(m, i, j) s == Sp(m) IN
    /\ ~s.comp /\ p[1] \in 1..s.nr /\ p[2] \in 1..s.nc
    /\ p \in s.ent \/ RowCount(s, p[1]) < s.cap
StoreOK(m, i, j) == /\ mt[m].alloc /\ Pos(m, i, j) \in DOMAIN mt[m].val

(* Actions *)
\* A fresh matrix with its own pattern; the constructor of a symmetric one registers the diagonal.
New(m, kind, nr, nc, max) ==
  /\ sp' = With(sp, NewSid, [nr |-> nr, nc |-> nc, cap |-> Cap(max, nc), comp |-> FALSE,
                             ent |-> IF kind = "sym" THEN {<<i, i>> : i \in 1..nr} ELSE {}])
  /\ mt' = With(mt, m, [kind |-> kind, sid |-> NewSid, alloc |-> FALSE, val |-> Empty])

\* Re-initialisation drops the previous pattern and values of this matrix only.
Reinit(m, nr, nc, max) ==
  /\ m \in DOMAIN mt
  /\ sp' = With(sp, NewSid, [nr |-> nr, nc |-> nc, cap |-> Cap(max, nc), comp |-> FALSE, ent |-> {}])
  /\ mt' = With(mt, m, [kind |-> Kind(m), sid |-> NewSid, alloc |-> FALSE, val |-> Empty])

\* m is (re)attached to the pattern of m2.  If that pattern is already fixed, m gets a zero value for each entry.
Attach(m, kind, m2) ==
  /\ m2 \in DOMAIN mt /\ kind = Kind(m2)
  /\ mt' = With(mt, m, [kind |-> kind, sid |-> mt[m2].sid, alloc |-> Sp(m2).comp,
                        val |-> IF Sp(m2).comp THEN Zeros(Sp(m2).ent) ELSE Empty])
  /\ UNCHANGED sp

AddEntry(m, i, j) ==
  /\ m \in DOMAIN mt /\ EntryOK(m, i, j)
  /\ sp' = [sp EXCEPT ![mt[m].sid].ent = @ \cup {Pos(m, i, j)}]
  /\ UNCHANGED mt

\* idempotent; values survive a repeated compress
Compress(m) ==
  /\ m \in DOMAIN mt
  /\ sp' = [sp EXCEPT ![mt[m].sid].comp = TRUE]
  /\ mt' = IF mt[m].alloc THEN mt
           ELSE [mt EXCEPT ![m].alloc = TRUE, ![m].val = Zeros(Sp(m).ent)]

AddValue(m, i, j, v) ==
  /\ m \in DOMAIN mt /\ StoreOK(m, i, j)
  /\ mt' = [mt EXCEPT ![m].val[Pos(m, i, j)] = @ + v]
  /\ UNCHANGED sp

SetValue(m, i, j, v) ==
  /\ m \in DOMAIN mt /\ StoreOK(m, i, j)
  /\ mt' = [mt EXCEPT ![m].val[Pos(m, i, j)] = v]
  /\ UNCHANGED sp

Zero(m) ==
  /\ m \in DOMAIN mt /\ mt[m].alloc
  /\ mt' = [mt EXCEPT ![m].val = Zeros(DOMAIN mt[m].val)]
  /\ UNCHANGED sp

\* m becomes a fresh compressed matrix with exactly the given entries (positions pairwise distinct)
Load(m, kind, nr, nc, ent, val) ==
  /\ sp' = With(sp, NewSid, [nr |-> nr, nc |-> nc, cap |-> 0, comp |-> TRUE, ent |-> ent])
  /\ mt' = With(mt, m, [kind |-> kind, sid |-> NewSid, alloc |-> TRUE, val |-> val])

\* storing m as text and reading it back into m2 yields an equal, independent matrix
Reload(m2, m) ==
  /\ m \in DOMAIN mt /\ mt[m].alloc
  /\ Load(m2, Kind(m), Sp(m).nr, Sp(m).nc, Sp(m).ent, mt[m].val)

Same(a, b) == /\ Sp(a).nr = Sp(b).nr /\ Sp(a).nc = Sp(b).nc /\ Sp(a).ent = Sp(b).ent
              /\ mt[a].val = mt[b].val

-----------------------------------------------------------------------------
(* Properties of the design *)
TypeOK == \A m \in DOMAIN mt : mt[m].sid \in DOMAIN sp
ValuesCoverPattern == \A m \in DOMAIN mt : mt[m].alloc => (Sp(m).comp /\ DOMAIN mt[m].val = Sp(m).ent)
Symmetric == \A m \in DOMAIN mt : Kind(m) = "sym" =>
                \A i, j \in 1..Sp(m).nr : Val(m, i, j) = Val(m, j, i)
UpperOnly == \A m \in DOMAIN mt : Kind(m) = "sym" => \A p \in Sp(m).ent : p[1] <= p[2]
RowsBounded == \A s \in DOMAIN sp : \A i \in 1..sp[s].nr : sp[s].comp \/ RowCount(sp[s], i) <= sp[s].cap \/
                                     sp[s].ent \subseteq {<<k, k>> : k \in 1..sp[s].nr}
FixedPattern == [][\A s \in DOMAIN sp : sp[s].comp => sp'[s] = sp[s]]_vars
=============================================================================
