----------------------------- MODULE TraceTime -----------------------------
EXTENDS TimeCtl, TraceBase
\* everything the controller reports after a call (times scaled by 2^20; ratios compared crosswise)
Near(a, b, c) == a * c - b <= c /\ b - a * c <= c
ObsOK == /\ ev.cur = cur' /\ ev.end = en' /\ ev.start = st'
         /\ ev.step = Len(conv') + 1 /\ ev.conv = Len(conv')
         /\ ev.it = it' /\ ev.tot = tot'
         /\ ev.delta = (IF it' = 1 THEN dl' ELSE 0)
         \* normalised values in 1/1000 of the interval
         /\ LET w == en' - st' IN Near(ev.norm, (cur' - st') * 1000, w) /\ Near(ev.ndelta, (IF it' = 1 THEN dl' ELSE 0) * 1000, w)
Step == CASE ev.e = "begin" -> st' = 0 /\ en' = 1 /\ cur' = 0 /\ dl' = 0 /\ it' = 0 /\ tot' = 0 /\ conv' = <<>>
          [] ev.e = "end" -> UNCHANGED tcvars
          [] ev.e = "setup" -> st' = ev.s /\ cur' = ev.s /\ en' = ev.t /\ dl' = 0 /\ it' = 0 /\ tot' = 0 /\ conv' = <<>> /\ ObsOK
          [] ev.e = "next" -> IF ev.r THEN Advance(ev.d) /\ ObsOK ELSE Finish /\ ev.cur = cur /\ ev.conv = Len(conv') /\ ev.step = Len(conv') + 1 /\ ev.tot = tot
          [] ev.e = "iter" -> Iterate /\ ObsOK
          [] ev.e = "iters" -> Iterations(ev.n) /\ ObsOK
          [] ev.e = "steps" -> Steps(ev.n, ev.d) /\ ev.r /\ ObsOK
          [] OTHER -> FALSE
TInit == TCInit(0, 1) /\ l = 1
TNext == More /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<tcvars, l>>
=============================================================================
