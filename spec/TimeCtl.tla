------------------------------ MODULE TimeCtl ------------------------------
(* Time stepping: from the start time to exactly the end time, each step with its equilibrium      *)
(* iterations.  Times are integers (multiples of 2^-k in the code, hence exact).                   *)
EXTENDS Integers, Sequences, TLC
VARIABLES st, en, cur, dl, it, tot, conv   \* conv: sequence of <<time, iterations>> of the completed steps
tcvars == <<st, en, cur, dl, it, tot, conv>>
TCInit(s, e) == st = s /\ en = e /\ cur = s /\ dl = 0 /\ it = 0 /\ tot = 0 /\ conv = <<>>
SetStart(s) == conv = <<>> /\ cur = st /\ st' = s /\ cur' = s /\ UNCHANGED <<en, dl, it, tot, conv>>
SetEnd(e) == conv = <<>> /\ cur = st /\ en' = e /\ UNCHANGED <<st, cur, dl, it, tot, conv>>
Done == cur >= en
\* the remainder in one piece if it is at most one step, in two equal ones if at most two
StepLen(d) == IF cur + d >= en THEN en - cur ELSE IF cur + 2 * d >= en THEN (en - cur) \div 2 ELSE d
Recorded == IF it > 0 THEN Append(conv, <<cur, it>>) ELSE conv
Advance(d) == ~Done /\ d > 0 /\ conv' = Recorded /\ dl' = StepLen(d) /\ cur' = cur + StepLen(d) /\ it' = 0 /\ UNCHANGED <<st, en, tot>>
Finish == Done /\ conv' = Recorded /\ UNCHANGED <<st, en, cur, dl, it, tot>>
Iterate == it' = it + 1 /\ tot' = tot + 1 /\ UNCHANGED <<st, en, cur, dl, conv>>
\* many at once: n iterations; n whole steps of one iteration each, far from the end
Iterations(n) == it' = it + n /\ tot' = tot + n /\ UNCHANGED <<st, en, cur, dl, conv>>
Steps(n, d) == /\ cur + (n + 1) * d < en /\ n > 1 /\ d > 0
               /\ conv' = Recorded \o [k \in 1..(n - 1) |-> <<cur + k * d, 1>>]
               /\ cur' = cur + n * d /\ dl' = d /\ it' = 1 /\ tot' = tot + n /\ UNCHANGED <<st, en>>
=============================================================================
