------------------------------ MODULE TraceIso ------------------------------
EXTENDS Iso, TraceBase
M == made[1]
D == Dim(kind)
ReadOK ==
  made # <<>> /\ LET x == M.pos n == M.n k == kind IN \E T \in {Table(k, x)} :   \* (bound once)
  /\ ev.np = n ^ D
  /\ ev.same                                    \* shape functions by the number of a point are those at its coordinates
  /\ (Exact(k, x, "vol", n) => ev.vol = Vol(k, T))
  /\ (Exact(k, x, "N", n) => \A q \in 1..NN(k) : ev.N[q] = IntN(k, T, q))
  /\ (Exact(k, x, "X", n) => \A j \in 1..D : ev.X[j] = IntX(k, T, x, j))
  /\ k # "LINE" =>
       /\ (Exact(k, x, "D", n) => \A q \in 1..NN(k), j \in 1..D : ev.D[q][j] = IntD(k, T, q, j))
       /\ Len(ev.g) = n ^ D /\ \A q \in DOMAIN ev.g : ev.g[q] = SubSeq(ev.a, 1, D)   \* a linear field has its gradient everywhere
  /\ (Affine(k, x) => \A q \in DOMAIN ev.mono : (\A i \in 1..D : ev.mono[q][i] <= 2 * n - 1) => ev.mono[q][D + 1] = Mono(k, T, ev.mono[q]))
  /\ Len(ev.mono) = (2 * n) ^ D
ShapeOK == /\ \A q \in 1..NN(kind) : ev.N[q] = Shape(kind, q, ev.p, 4)
           /\ \A q \in 1..NN(kind), d \in 1..D : ev.D[q][d] = Deriv(kind, q, d, ev.p, 4)
Step ==
  CASE ev.e = "begin" -> kind' = "LINE" /\ pos' = <<>> /\ ord' = 0 /\ made' = <<>>
    [] ev.e = "end" -> UNCHANGED isovars
    [] ev.e = "elem" -> ev.nn = NN(ev.k) /\ ev.dim = Dim(ev.k) /\ New(ev.k, ev.pos)
    [] ev.e = "order" -> ev.got = ev.o /\ Order(ev.o)
    [] ev.e = "move" -> Move(ev.n, ev.p)
    [] ev.e = "make" -> Make /\ ev.ord = ord'
    [] ev.e = "read" -> ReadOK /\ UNCHANGED isovars
    [] ev.e = "shape" -> ShapeOK /\ UNCHANGED isovars
    [] OTHER -> FALSE
TInit == kind = "LINE" /\ pos = <<>> /\ ord = 0 /\ made = <<>> /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<isovars, l>>
=============================================================================
