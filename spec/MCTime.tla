------------------------------ MODULE MCTime ------------------------------
EXTENDS TimeCtl, Json
CONSTANTS Starts, Ends, Deltas, Depth
VARIABLES hist, fin
StartsQ == {0, 64, -128}
EndsQ == {64, 192, 320}
DeltasQ == {32, 64, 96, 128, 640}
op(o) == hist' = Append(hist, o)
Init == \E s \in Starts, e \in Ends : s < e /\ TCInit(s, e) /\ hist = <<<<"setup", s, e>>>> /\ fin = FALSE
Next == /\ Len(hist) < Depth /\ ~fin
        /\ \/ \E d \in Deltas : Advance(d) /\ (en - cur) % 2 = 0 /\ op(<<"next", d>>) /\ fin' = fin
           \/ Finish /\ op(<<"next", 64>>) /\ fin' = TRUE
           \/ it < 2 /\ cur > st /\ Iterate /\ op(<<"iter">>) /\ fin' = fin
Spec == Init /\ [][Next]_<<tcvars, hist, fin>>
View == <<tcvars, fin, Len(hist)>>
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
Bounded == cur <= en /\ cur >= st
Growing == [][cur' >= cur /\ Len(conv') >= Len(conv)]_<<tcvars, hist, fin>>
Monotone == \A i \in 1..(Len(conv) - 1) : conv[i][1] < conv[i + 1][1]
FinalIsEnd == fin => cur = en
NeverTooLong == \A i \in DOMAIN conv : conv[i][1] <= en
=============================================================================
