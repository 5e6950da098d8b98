------------------------------ MODULE MCMesh ------------------------------
EXTENDS Mesh, Json
CONSTANTS Nums0, MaxNodes, Depth
VARIABLES hist, was
op(o) == hist' = Append(hist, o)
S(n) == ToString(n)
NodeLine(n) == "node " \o S(n) \o " " \o S(8 * n) \o " " \o S(-n) \o " 3"
Init == MInit /\ hist = <<>> /\ was = Empty
N == Nums(md)
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Nums0 \ N : Len(md.nodes) < MaxNodes /\ md.cells = <<>> /\ PutMesh("node", <<n, <<8 * n, -n, 3>>>>) /\ op(NodeLine(n)) /\ was' = was
           \/ \E a, b \in N : Len(md.cells) < 1 /\ PutMesh("cell", <<9, <<1, 1, 0, 0, 0, 0>>, <<a, b>>>>) /\ op("cell 9 1 1 0 0 0 0 N " \o S(a) \o " " \o S(b)) /\ was' = was
           \/ \E a \in N : Len(md.fixes) < 1 /\ md.cells # <<>> /\ PutMesh("fix", <<a, "UX", 4>>) /\ op("fix " \o S(a) \o " UX 4") /\ was' = was
           \/ \E a, b \in N : md.comps = {} /\ md.cells # <<>> /\ PutMesh("comp", <<"C", "NODE", <<a, b>>>>) /\ op("comp C NODE " \o S(a) \o " " \o S(b)) /\ was' = was
           \/ \E a, b \in N : md.mpcs = <<>> /\ md.fixes # <<>> /\ PutMesh("mpc", <<8, <<<<a, "UX", 8>>, <<b, "UY", -8>>>>>>) /\ op("mpc 8 " \o S(a) \o " UX 8 " \o S(b) \o " UY -8") /\ was' = was
           \/ md.nodes # <<>> /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # "compress") /\ Compress /\ op("compress") /\ was' = md
Spec == Init /\ [][Next]_<<mvars, hist, was>>
View == <<md, Len(hist)>>
Emit == IF hist'[Len(hist')] = "compress" THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE
Legal == WellFormed(md)
\* compressing changes names only: every reference still reaches the same position
At(m, n) == m.nodes[CHOOSE k \in DOMAIN m.nodes : m.nodes[k][1] = n][2]
SamePlaces(a, b) ==
  /\ \A k \in DOMAIN a.cells : \A j \in DOMAIN a.cells[k][3] : At(a, a.cells[k][3][j]) = At(b, b.cells[k][3][j])
  /\ \A k \in DOMAIN a.fixes : At(a, a.fixes[k][1]) = At(b, b.fixes[k][1])
Isomorphic == hist # <<>> => (hist[Len(hist)] = "compress" => SamePlaces(was, md) /\ Nums(md) = 1..Len(md.nodes) /\ Compressed(md) = md)
=============================================================================
