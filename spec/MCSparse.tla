----------------------------- MODULE MCSparse -----------------------------
(* Exhaustive exploration of Sparse within small constants; every generated transition is emitted  *)
(* as a script (one shortest path to its source state plus the transition) for replay in the code. *)
EXTENDS Sparse, Json
CONSTANTS Mats, Shapes, Vals, Depth, Kinds
VARIABLE hist
ValsQ == {1, -2}
ShapesQ == {<<2, 2, 1>>, <<1, 2, 100>>}
ShapesT == {<<2, 2, 1>>, <<2, 2, 100>>, <<1, 3, 2>>}
op(o) == hist' = Append(hist, o)
N(m) == m \in DOMAIN mt

Next ==
  /\ Len(hist) < Depth
  /\ \E m \in Mats :
     \/ \E k \in Kinds, s \in Shapes : ~N(m) /\ m = Cardinality(DOMAIN mt) + 1 /\ (k = "sym" => s[1] = s[2])
          /\ New(m, k, s[1], s[2], s[3]) /\ op(<<"new", m, k, s[1], s[2], s[3]>>)
     \/ \E m2 \in Mats : N(m2) /\ m = Cardinality(DOMAIN mt) + 1 /\ Attach(m, Kind(m2), m2) /\ op(<<"share", m, Kind(m2), m2>>)
     \/ \E m2 \in Mats : m # m2 /\ N(m) /\ N(m2) /\ Kind(m) = Kind(m2) /\ Attach(m, Kind(m2), m2) /\ op(<<"setsp", m, m2>>)
     \/ N(m) /\ \E s \in Shapes : (Kind(m) = "sym" => s[1] = s[2]) /\ Reinit(m, s[1], s[2], s[3]) /\ op(<<"reinit", m, s[1], s[2], s[3]>>)
     \/ N(m) /\ \E i \in 1..Sp(m).nr, j \in 1..Sp(m).nc : AddEntry(m, i, j) /\ op(<<"ent", m, i, j>>)
     \/ N(m) /\ Compress(m) /\ op(<<"comp", m>>)
     \/ N(m) /\ \E i \in 1..Sp(m).nr, j \in 1..Sp(m).nc, v \in Vals : AddValue(m, i, j, v) /\ op(<<"addv", m, i, j, v>>)
     \/ N(m) /\ Zero(m) /\ op(<<"zero", m>>)
     \/ \E m2 \in Mats : N(m2) /\ m = Cardinality(DOMAIN mt) + 1 /\ Reload(m, m2) /\ op(<<"rt", m, Kind(m2), m2>>)
MCInit == Init /\ hist = <<>>
Spec == MCInit /\ [][Next]_<<vars, hist>>
View == <<sp, mt, Len(hist)>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
