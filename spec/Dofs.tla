------------------------------- MODULE Dofs -------------------------------
(* A DoF table: for each entity the set of registered DoF types; each DoF carries an equation      *)
(* number and a constrained flag.  Registration is idempotent and never disturbs other DoFs.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n, d      \* number of entities; <<entity, type>> -> <<eq, constrained>>
dvars == <<n, d>>
DInit == n = 0 /\ d = [x \in {} |-> <<0, FALSE>>]
Create(k) == n' = k /\ d' = [x \in {} |-> <<0, FALSE>>]
Add(e, ts) == e \in 1..n /\ d' = [x \in {<<e, t>> : t \in ts} \ DOMAIN d |-> <<0, FALSE>>] @@ d /\ UNCHANGED n
Fill(ts) == d' = [x \in ({<<e, t>> : e \in 1..n, t \in ts} \ DOMAIN d) |-> <<0, FALSE>>] @@ d /\ UNCHANGED n   \* the same for every entity
Mark(e, t, q, c) == <<e, t>> \in DOMAIN d /\ d' = [d EXCEPT ![<<e, t>>] = <<q, c>>] /\ UNCHANGED n
Clear == n' = 0 /\ d' = [x \in {} |-> <<0, FALSE>>]
Used(e, t) == <<e, t>> \in DOMAIN d
Of(e) == {x[2] : x \in {y \in DOMAIN d : y[1] = e}}
Types == {x[2] : x \in DOMAIN d}
Count == Cardinality(DOMAIN d)
=============================================================================
