------------------------------- MODULE Block -------------------------------
(* Symmetric matrix stored as blocks of a row partition: one global symmetric map; matrices built  *)
(* on another one share its pattern but not its values.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pt,  \* pattern id -> [sz, ent, comp]
          bm   \* matrix -> [p, alloc, val]
bvars == <<pt, bm>>
NoF == [x \in {} |-> 0]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
P(m) == pt[bm[m].p]
Rows(m) == SumSeq(P(m).sz)
Canon(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
BInit == pt = NoF /\ bm = NoF
Zeros(e) == [x \in e |-> 0]
NewB(m, sz) == LET id == Cardinality(DOMAIN pt) + 1 IN
  /\ pt' = (id :> [sz |-> sz, ent |-> {}, comp |-> FALSE]) @@ pt
  /\ bm' = (m :> [p |-> id, alloc |-> FALSE, val |-> NoF]) @@ bm
OnB(m, m2) == /\ bm' = (m :> [p |-> bm[m2].p, alloc |-> P(m2).comp, val |-> IF P(m2).comp THEN Zeros(P(m2).ent) ELSE NoF]) @@ bm /\ UNCHANGED pt
EntryB(m, i, j) == /\ ~P(m).comp /\ i \in 1..Rows(m) /\ j \in 1..Rows(m)
                   /\ pt' = [pt EXCEPT ![bm[m].p].ent = @ \cup {Canon(i, j)}] /\ UNCHANGED bm
CompB(m) == /\ pt' = [pt EXCEPT ![bm[m].p].comp = TRUE]
            /\ bm' = [bm EXCEPT ![m] = IF @.alloc THEN @ ELSE [@ EXCEPT !.alloc = TRUE, !.val = Zeros(P(m).ent)]]
AddB(m, i, j, v) == /\ bm[m].alloc /\ Canon(i, j) \in P(m).ent
                    /\ bm' = [bm EXCEPT ![m].val[Canon(i, j)] = @ + v] /\ UNCHANGED pt
ZeroB(m) == bm[m].alloc /\ bm' = [bm EXCEPT ![m].val = Zeros(P(m).ent)] /\ UNCHANGED pt
At(m, i, j) == IF Canon(i, j) \in P(m).ent THEN bm[m].val[Canon(i, j)] ELSE 0
=============================================================================
