------------------------------- MODULE MCIso -------------------------------
(* Elements of a catalogue, ordered, made, moved and read in every order.                             *)
EXTENDS Iso, Json
CONSTANTS Depth
VARIABLE hist
Box(a, b, c) == [n \in 1..8 |-> LET q == Corners("HEX")[n] IN <<IF q[1] > 0 THEN a ELSE 0, IF q[2] > 0 THEN b ELSE 0, IF q[3] > 0 THEN c ELSE 0>>]
Cat == { <<"LINE", << <<1, 0, 0>>, <<3, 2, 1>> >> >>, <<"LINE", << <<-1, 2, 3>>, <<-1, -2, 0>> >> >>,
  <<"QUAD", << <<0, 0, 0>>, <<2, 0, 1>>, <<2, 3, 0>>, <<0, 3, 0>> >> >>,
  <<"QUAD", << <<1, 1, 0>>, <<3, 2, 0>>, <<4, 5, 0>>, <<2, 4, 0>> >> >>,
  <<"QUAD", << <<0, 0, 0>>, <<4, -1, 0>>, <<3, 2, 0>>, <<-1, 5, 0>> >> >>,
  <<"HEX", Box(1, 2, 3)>>,
  <<"HEX", [n \in 1..8 |-> LET b == Box(2, 2, 2)[n] IN <<b[1] + b[2] \div 2 - 1, b[2] - b[3] \div 2, b[3] + b[1] \div 2>>]>>,
  <<"HEX", [Box(2, 2, 2) EXCEPT ![7] = <<3, 3, 4>>, ![1] = <<-1, 0, 0>>]>> }
To == [LINE |-> <<4, 4, 4>>, QUAD |-> <<5, 5, 0>>, HEX |-> <<3, 3, 3>>]     \* where the last but one node of a quadrangle may go
Mn(k) == CASE k = "LINE" -> 2 [] k = "QUAD" -> 3 [] OTHER -> 7
MvTo(k) == IF k = "LINE" THEN [pos[1] EXCEPT ![1] = @ + 7] ELSE To[k]
op(o) == hist' = Append(hist, o)
Init == \E c \in Cat : kind = c[1] /\ pos = c[2] /\ ord = 0 /\ made = <<>> /\ hist = << <<"elem", c[1], c[2]>> >>
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E o \in 0..4 : o # ord /\ hist[Len(hist)][1] # "order" /\ Order(o) /\ op(<<"order", o>>)
     \/ pos[Mn(kind)] # MvTo(kind) /\ Move(Mn(kind), MvTo(kind)) /\ op(<<"move", Mn(kind), MvTo(kind)>>)
     \/ Make /\ op(<<"make">>)
     \/ made # <<>> /\ hist[Len(hist)][1] # "read" /\ UNCHANGED isovars /\ op(<<"read", 1, -2, 3>>)
Spec == Init /\ [][Next]_<<isovars, hist>>
Emit == IF hist'[Len(hist')][1] = "read" /\ Len(hist') >= Depth - 1 THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE
\* consequences of the definitions: partition of unity, no gradient of a constant, volumes which add up, the gradient of a
\* coordinate integrates to the volume, cofactors which belong to the determinant
Ones == Len(hist) = 1 => LET k == kind IN
  /\ \A p \in Pts(k) : (LET f(n) == Shape(k, n, p, 1) IN Add(f, 1, NN(k))) = 2 ^ Dim(k)
  /\ \A p \in Pts(k), d \in 1..Dim(k) : (LET f(n) == Deriv(k, n, d, p, 1) IN Add(f, 1, NN(k))) = 0
  /\ \A m, n \in 1..NN(k) : Shape(k, n, Corners(k)[m], 1) = (IF m = n THEN 2 ^ Dim(k) ELSE 0)
Adds == Len(hist) = 1 => LET k == kind x == pos T == Table(k, x) IN
  /\ Vol(k, T) > 0
  /\ (LET f(n) == IntN(k, T, n) IN Add(f, 1, NN(k))) = 2 ^ Dim(k) * Vol(k, T)
  /\ k # "LINE" => \A i, j \in 1..Dim(k) : (LET f(n) == IntD(k, T, n, j) * x[n][i] IN Add(f, 1, NN(k))) = (IF i = j THEN 1 ELSE 0) * Vol(k, T)
  /\ (Affine(k, x) => \A n \in 1..NN(k) : IntN(k, T, n) = Vol(k, T))
  /\ (Affine(k, x) => Vol(k, T) = 6 ^ Dim(k) * Det(k, x, [i \in 1..Dim(k) |-> 0]))
Snapshot == made # <<>> => made[1].n \in 1..3
=============================================================================
