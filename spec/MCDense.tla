------------------------------ MODULE MCDense ------------------------------
(* Every short history of three dynamic vectors which own, share and release their numbers. *)
EXTENDS Dense, Json
CONSTANTS Depth, All   \* All: the arithmetic which doesn't matter to the sharing, too
VARIABLE hist
mvars == <<heap, vec, dm, hist>>
V == 1..NV
Init == heap = <<<<64, 128, 192>>, <<256, 320>>>> /\ vec = <<[h |-> 1, s |-> 0, n |-> 3, own |-> TRUE], [h |-> 2, s |-> 0, n |-> 2, own |-> TRUE], None>> /\ dm = <<>>
  /\ hist = <<<<"new", 1, 1, 2, 3>>, <<"new", 2, 4, 5>>>>
Op(x) == hist' = Append(hist, x) /\ UNCHANGED dm
t == Len(hist)
Extra(k) ==
  \/ \E v \in {-3, 5} : Fill(k, 64 * v) /\ Op(<<"fill", k, v>>)
  \/ \E a \in V : \/ Scale(k, a, -1, 1) /\ Op(<<"neg", k, a>>)
                  \/ Scale(k, a, 2, 1) /\ (\A i \in 1..vec[a].n : Abs(Get(a)[i]) < 100000) /\ Op(<<"times", k, a, 2>>)
                  \/ Is(a) /\ ~Lost(a) /\ (\A i \in 1..vec[a].n : Get(a)[i] % 2 = 0) /\ Scale(k, a, 1, 2) /\ Op(<<"over", k, a, 2>>)
                  \/ Is(a) /\ ~Lost(a) /\ (\A i \in 1..vec[a].n : Get(a)[i] % 16 = 0 /\ Abs(Get(a)[i]) < 60000) /\ New(k, Get(a)) /\ Op(<<"text", k, a>>)
                  \/ AddTo(k, a, -1) /\ Op(<<"subto", k, a>>)
                  \/ \E b \in V : Sum(k, a, b, 1) /\ Op(<<"add", k, a, b>>)
                  \/ Is(k) /\ Is(a) /\ ~Lost(k) /\ ~Lost(a) /\ UNCHANGED <<heap, vec>> /\ \E th \in {0, 64, 640} : Op(<<"same", k, a, th>>)
Next ==
  /\ Len(hist) < 2 + Depth
  /\ \E k \in V :
     \/ \E n \in 1..3 : New(k, [i \in 1..n |-> 64 * (10 * t + i)]) /\ Op(<<"new", k>> \o [i \in 1..n |-> 10 * t + i])
     \/ Clear(k) /\ Op(<<"clear", k>>)
     \/ ~Lost(k) /\ Is(k) /\ vec[k].n > 1 /\ Set(k, 1, 64 * 7) /\ Op(<<"set", k, 1, 7>>)
     \/ \E r \in V : \/ \E s \in 0..2, n \in 1..2 : View(k, r, s, n) /\ Op(<<"view", k, r, s, n>>)
                     \/ Copy(k, r) /\ Op(<<"copy", k, r>>)
                     \/ Move(k, r) /\ Op(<<"move", k, r>>)
                     \/ Assign(k, r) /\ Op(<<"assign", k, r>>)
                     \/ AddTo(k, r, 1) /\ Op(<<"addto", k, r>>)
                     \/ Sum(k, k, r, -1) /\ Op(<<"sub", k, k, r>>)
     \/ All /\ Extra(k)
Spec == Init /\ [][Next]_mvars
Emit == Len(hist') = 2 + Depth => PrintT(<<"SCRIPT", ToJson(hist')>>)
Full == Len(hist) <= 2 + Depth
\* every block which isn't released has exactly one owner, and windows lie within their block
Owned == \A h \in 1..Len(heap) : heap[h] # <<>> <=> \E k \in V : vec[k].own /\ vec[k].h = h /\ vec[k].n = Len(heap[h]) /\ vec[k].s = 0
Single == \A a, b \in V : a # b /\ vec[a].own /\ vec[b].own => vec[a].h # vec[b].h
Inside == \A k \in V : Is(k) /\ ~Lost(k) => vec[k].n > 0 /\ vec[k].s + vec[k].n <= Len(heap[vec[k].h])
\* an operation changes the numbers of no vector which doesn't share them with its target (the second word of the operation)
Apart == [][LET k == hist'[Len(hist')][2] IN \A j \in V : j # k /\ vec'[j] = vec[j] /\ Is(j) /\ vec[j].h # vec[k].h => heap'[vec[j].h] = heap[vec[j].h]]_mvars
=============================================================================
