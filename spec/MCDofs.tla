------------------------------ MODULE MCDofs ------------------------------
EXTENDS Dofs, Json
CONSTANTS NE, T, Depth
VARIABLE hist
op(o) == hist' = Append(hist, o)
Lists == {<<a>> : a \in T} \cup {<<a, b>> : a \in T, b \in T}
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in 1..NE : n = 0 /\ Create(k) /\ op(<<"create", k>>)
           \/ \E e \in 1..n, q \in Lists : Add(e, {q[i] : i \in DOMAIN q}) /\ op(<<"add", e>> \o q)
           \/ \E x \in DOMAIN d : Mark(x[1], x[2], 7 * x[1] + Len(hist), TRUE) /\ op(<<"mark", x[1], x[2], 7 * x[1] + Len(hist), 1>>)
           \/ n > 0 /\ Clear /\ op(<<"clear">>)
Spec == DInit /\ hist = <<>> /\ [][Next]_<<dvars, hist>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
View == <<n, DOMAIN d, {x \in DOMAIN d : d[x][2]}, Len(hist)>>
Consistent == Count >= Cardinality(Types) /\ \A x \in DOMAIN d : x[1] \in 1..n
=============================================================================
