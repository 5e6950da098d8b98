------------------------------ MODULE MCBlock ------------------------------
EXTENDS Block, Json
CONSTANTS Depth, Sizes
VARIABLE hist
SizesQ == {<<1, 2>>, <<0, 2>>, <<1, 1, 1>>}
SizesT == {<<1, 2>>, <<2, 1>>, <<0, 2>>, <<1, 1, 1>>, <<1, 0, 2>>}
op(o) == hist' = Append(hist, o)
K(m) == m \in DOMAIN bm
Next == /\ Len(hist) < Depth
        /\ \E m \in 1..2 :
           \/ \E s \in Sizes : ~K(m) /\ m = 1 /\ NewB(m, s) /\ op(<<"new", m>> \o s)
           \/ ~K(m) /\ m = 2 /\ K(1) /\ OnB(2, 1) /\ op(<<"on", 2, 1>>)
           \/ K(m) /\ \E i \in 1..Rows(m), j \in 1..Rows(m) : EntryB(m, i, j) /\ op(<<"ent", m, i, j>>)
           \/ K(m) /\ CompB(m) /\ op(<<"comp", m>>)
           \/ K(m) /\ \E i \in 1..Rows(m), j \in 1..Rows(m) : AddB(m, i, j, 10 * i + j) /\ op(<<"addv", m, i, j, 10 * i + j>>)
           \/ K(m) /\ ZeroB(m) /\ op(<<"zero", m>>)
Spec == BInit /\ hist = <<>> /\ [][Next]_<<bvars, hist>>
View == <<bvars, Len(hist)>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
