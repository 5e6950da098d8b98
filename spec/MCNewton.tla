------------------------------ MODULE MCNewton ------------------------------
(* The protocol of the incremental-iterative solution of one DoF with internal force K u and       *)
(* tangent T K: load steps, iterations, acceptance, refusal, post-processors.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, Tangs, Limits, MaxPP
VARIABLES n, T, lim, np,     \* load steps, tangent factor, iteration limit, number of post-processors
          step, it, u, du, t,  \* u, du scaled so that everything stays integral
          ph, k, rep         \* phase, next post-processor, reports: how many, all sound
vars == <<n, T, lim, np, step, it, u, du, t, ph, k, rep>>
Full == 4096               \* the full load: Full / n per step, contraction 1 - 1/T per iteration
Crit == 64                 \* acceptance: |du| < Crit surely not required above, surely required at or above Crit
Abs(x) == IF x < 0 THEN -x ELSE x
Line == "elem VERTEX 0 " \o ToString(T) \o " 1 D UX E N 1 K 8 F 0 C 1 M 1"
Script == <<"fe 10000 1 0 0 0", Line, "solver nl " \o ToString(n) \o " " \o ToString(lim) \o " 100000 1">>
   \o [i \in 1..np |-> "rec " \o ToString(10 + i) \o (IF i = 1 THEN " 1" ELSE " 0")] \o <<"load 1 UX 16", "try">>
Init == /\ n \in Steps /\ T \in Tangs /\ lim \in Limits /\ np \in 1..MaxPP
        /\ step = 0 /\ it = 0 /\ u = 0 /\ du = 0 /\ t = 0 /\ ph = "pre" /\ k = 0 /\ rep = [c |-> 0, ok |-> TRUE]
Par == UNCHANGED <<n, T, lim, np>>
Next ==
  \/ ph = "pre" /\ k < np /\ k' = k + 1 /\ Par /\ UNCHANGED <<step, it, u, du, t, ph, rep>>
  \/ ph \in {"pre", "proc"} /\ k = np /\ step < n /\ step' = step + 1 /\ t' = ((step + 1) * Full) \div n /\ it' = 0 /\ ph' = "iter" /\ k' = 0 /\ Par /\ UNCHANGED <<u, du, rep>>
  \/ ph = "iter" /\ it' = it + 1 /\ du' = (t - u) \div T /\ u' = u + (t - u) \div T /\ ph' = "judge" /\ Par /\ UNCHANGED <<step, t, k, rep>>
  \/ ph = "judge" /\ Abs(du) < Crit /\ ph' = "proc" /\ k' = 0 /\ rep' = [c |-> rep.c + 1, ok |-> rep.ok /\ step = rep.c + 1 /\ Abs(du) < Crit] /\ Par /\ UNCHANGED <<step, it, u, du, t>>
  \/ ph = "judge" /\ du # 0 /\ it < lim /\ ph' = "iter" /\ Par /\ UNCHANGED <<step, it, u, du, t, k, rep>>
  \/ ph = "judge" /\ du # 0 /\ it >= lim /\ ph' = "refused" /\ Par /\ UNCHANGED <<step, it, u, du, t, k, rep>>
  \/ ph = "proc" /\ k < np /\ k' = k + 1 /\ Par /\ UNCHANGED <<step, it, u, du, t, ph, rep>>
  \/ ph = "proc" /\ k = np /\ step = n /\ ph' = "post" /\ k' = 0 /\ Par /\ UNCHANGED <<step, it, u, du, t, rep>>
  \/ ph = "post" /\ k < np /\ k' = k + 1 /\ Par /\ UNCHANGED <<step, it, u, du, t, ph, rep>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == IF ph = "pre" /\ k = 0 THEN PrintT(<<"SCRIPT", ToJson(Script)>>) ELSE TRUE
\* a report is never of an unconverged state; reports are consecutive; at the end the full load is there
Sound == rep.ok
Complete == ph = "post" => rep.c = n /\ t = Full /\ Abs(Full - u) < Crit * T
Limited == it <= lim
RefusedNotReported == ph = "refused" => rep.c = step - 1 /\ it = lim
Ends == <>(ph = "refused" \/ (ph = "post" /\ k = np))
=============================================================================
