---------------------------- MODULE MCNewmark ----------------------------
(* The transient protocol for one undamped or first-order DoF, in exact rational arithmetic:       *)
(* K u + C v + M a = P at every instant, Newmark kinematics in between.  Values are <<num, den>>.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ks, Cs, Ms, Ps, Inits, Params, MaxSteps
VARIABLES k, c, m, p, init, al, de, n, u, v, a, step
vars == <<k, c, m, p, init, al, de, n, u, v, a, step>>
ParamsQ == {<<2, 4>>, <<4, 6>>, <<8, 8>>}
\* time step 1; u, v, a are numerators over a common denominator d (all rational, exact)
VARIABLE d
Init == /\ k \in Ks /\ c \in Cs /\ m \in Ms /\ p \in Ps /\ init \in Inits /\ \E q \in Params : al = q[1] /\ de = q[2]
        /\ n \in 1..MaxSteps /\ u = init /\ v = 0 /\ a = 0 /\ d = 1 /\ step = 0
\* with dt = 1, parameters al/8, de/8:  8 u' = 8 u + 8 v + (4 - al) a + al a',  8 v' = 8 v + (8 - de) a + de a'
\* K u' + C v' + M a' = P  =>  a' (8 M + de C + al K) = 8 P - K (8u + 8v + (4-al) a) - C (8 v + (8-de) a)
Den == 8 * m + de * c + al * k
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(x, y, z, w) == LET g == Gcd(Gcd(Gcd(Abs(x), Abs(y)), Abs(z)), Abs(w)) IN IF g = 0 THEN 1 ELSE g
Next == /\ step < n /\ step' = step + 1
        /\ LET an == 8 * p * d - k * (8 * u + 8 * v + (4 - al) * a) - c * (8 * v + (8 - de) * a)  \* a' = an / (d Den)
               U1 == Den * (8 * u + 8 * v + (4 - al) * a) + al * an                               \* u' = U1 / (8 d Den)
               V1 == Den * (8 * v + (8 - de) * a) + de * an
               A1 == 8 * an
               D1 == 8 * d * Den
               g == Red(U1, V1, A1, D1) IN
             u' = U1 \div g /\ v' = V1 \div g /\ a' = A1 \div g /\ d' = D1 \div g
        /\ UNCHANGED <<k, c, m, p, init, al, de, n>>
Spec == Init /\ [][Next]_<<vars, d>>
Ok == step > 0 => k * u + c * v + m * a = p * d
\* a first-order system with the backward rule (al = de = 8, M = 0) relaxes monotonically to P/K
Relax == step > 0 /\ m = 0 /\ c > 0 /\ al = 8 /\ de = 8 /\ k > 0 /\ init = 0 /\ p > 0 => u >= 0 /\ k * u <= p * d + c * d * 100
S(x) == ToString(x)
Script == <<"fe 1000 1 0 0 0", "elem VERTEX 1 1 0 D UX E N 1 K " \o S(k) \o " F 0 C " \o S(c) \o " M " \o S(m), "solver tr " \o S(n) \o " 1 0 " \o S(al) \o " " \o S(de) \o " " \o S(init),
            "rec 11 1", "load 1 UX " \o S(p), "solve", "get">>
Emit == IF step = 0 THEN PrintT(<<"SCRIPT", ToJson(Script)>>) ELSE TRUE
=============================================================================
