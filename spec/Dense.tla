------------------------------ MODULE Dense ------------------------------
(* Dense vectors and matrices.                                                                      *)
(* Dynamic vectors (dVec) either own a block of numbers or are a window on a part of another one's   *)
(* block; heap holds the blocks (a released one is empty), vec the vectors.  Numbers are in units     *)
(* of 1/64.  Matrices (Mat, MatSym, dMat, the products) are values.                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANT NV
VARIABLES heap, vec, dm
dvars == <<heap, vec, dm>>
None == [h |-> 0, s |-> 0, n |-> 0, own |-> FALSE]
Is(k) == vec[k].h # 0
\* a window whose block was released must not be used
Lost(k) == Is(k) /\ heap[vec[k].h] = <<>>
Free(k) == IF vec[k].own THEN [heap EXCEPT ![vec[k].h] = <<>>] ELSE heap
Usable(r, k) == Is(r) /\ ~Lost(r) /\ ~(vec[k].own /\ vec[k].h = vec[r].h)     \* usable after k was released
Get(k) == [i \in 1..vec[k].n |-> heap[vec[k].h][vec[k].s + i]]
Written(k, x) == [heap EXCEPT ![vec[k].h] = [i \in 1..Len(@) |-> IF i > vec[k].s /\ i <= vec[k].s + vec[k].n THEN x[i - vec[k].s] ELSE @[i]]]
Put(k, x) == heap' = Written(k, x) /\ UNCHANGED vec
New(k, x) == heap' = Append(Free(k), x) /\ vec' = [vec EXCEPT ![k] = [h |-> Len(heap) + 1, s |-> 0, n |-> Len(x), own |-> TRUE]]
View(k, r, s, n) == k # r /\ Usable(r, k) /\ s + n <= vec[r].n /\ n > 0 /\ heap' = Free(k) /\ vec' = [vec EXCEPT ![k] = [h |-> vec[r].h, s |-> vec[r].s + s, n |-> n, own |-> FALSE]]
Clear(k) == heap' = Free(k) /\ vec' = [vec EXCEPT ![k] = None]
\* a vector made from another one
Copy(k, r) == k # r /\ IF Is(r) THEN Usable(r, k) /\ New(k, Get(r)) ELSE Clear(k)
Move(k, r) == k # r /\ (Is(r) => Usable(r, k)) /\ heap' = Free(k) /\ vec' = [vec EXCEPT ![k] = vec[r], ![r] = None]
\* assignment: into the own numbers if there are as many, otherwise into a new block
Store(k, x) == IF Is(k) /\ vec[k].n = Len(x) THEN ~Lost(k) /\ Put(k, x) ELSE New(k, x)
Assign(k, r) == IF k = r THEN UNCHANGED <<heap, vec>> ELSE IF ~Is(r) THEN Clear(k) ELSE ~Lost(r) /\ Store(k, Get(r))
Whole(k, r) == vec[k].h # vec[r].h \/ vec[k].s = vec[r].s \/ vec[k].s + vec[k].n <= vec[r].s \/ vec[r].s + vec[r].n <= vec[k].s
Fit(a, b) == Is(a) /\ Is(b) /\ ~Lost(a) /\ ~Lost(b) /\ vec[a].n = vec[b].n
AddTo(k, r, c) == Fit(k, r) /\ Whole(k, r) /\ LET x == Get(k) y == Get(r) IN Put(k, [i \in DOMAIN x |-> x[i] + c * y[i]])
Sum(k, a, b, c) == Fit(a, b) /\ LET x == Get(a) y == Get(b) IN Store(k, [i \in DOMAIN x |-> x[i] + c * y[i]])
Scale(k, a, p, q) == Is(a) /\ ~Lost(a) /\ LET x == Get(a) IN Store(k, [i \in DOMAIN x |-> (p * x[i]) \div q])
Set(k, i, v) == Is(k) /\ ~Lost(k) /\ i < vec[k].n /\ LET x == Get(k) IN Put(k, [x EXCEPT ![i + 1] = v])
Fill(k, v) == Is(k) /\ ~Lost(k) /\ Put(k, [i \in 1..vec[k].n |-> v])
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b, th) == vec[a].n = vec[b].n /\ \A i \in 1..vec[a].n : Abs(Get(a)[i] - Get(b)[i]) <= th
(* ---- matrices: sequences of rows --------------------------------------------------------------- *)
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
R(A) == Len(A)
C(A) == Len(A[1])
Make(m, n, f(_, _)) == [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]
T(A) == LET f(i, j) == A[j][i] IN Make(C(A), R(A), f)
Plus(A, B, c) == LET f(i, j) == A[i][j] + c * B[i][j] IN Make(R(A), C(A), f)
Times(A, c) == LET f(i, j) == c * A[i][j] IN Make(R(A), C(A), f)
Mul(A, B) == LET f(i, j) == LET g(k) == A[i][k] * B[k][j] IN SumTo(g, C(A)) IN Make(R(A), C(B), f)
Unit(n) == LET f(i, j) == IF i = j THEN 1 ELSE 0 IN Make(n, n, f)
Cut(A, a, b) == LET f(i, j) == A[IF i >= a THEN i + 1 ELSE i][IF j >= b THEN j + 1 ELSE j] IN Make(R(A) - 1, C(A) - 1, f)
RECURSIVE Det(_)
Det(A) == IF R(A) = 1 THEN A[1][1] ELSE LET f(j) == IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Cut(A, 1, j)) IN SumTo(f, C(A))
Tr(A) == LET f(i) == A[i][i] IN SumTo(f, R(A))
\* the symmetric matrix whose upper triangle is listed row by row
Place(n, i, j) == LET a == IF i <= j THEN i ELSE j  b == IF i <= j THEN j ELSE i IN (a - 1) * n - ((a - 1) * (a - 2)) \div 2 + (b - a) + 1
Sym(n, d) == LET f(i, j) == d[Place(n, i, j)] IN Make(n, n, f)
Second(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1] + A[1][1] * A[3][3] - A[1][3] * A[3][1] + A[2][2] * A[3][3] - A[2][3] * A[3][2]
=============================================================================
