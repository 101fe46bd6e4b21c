----------------------------- MODULE Timer_Trace ------------------------------
EXTENDS Timer, TraceBase
VARIABLE l
vars == <<l, now, tm, auto>>
E == Trace[l]
Init == TInit /\ l = 1
Step ==
  \/ E.e = "reset" /\ now' = Zero /\ tm' = [i \in 0..2 |-> NoTimer] /\ auto' = <<>>
  \/ E.e = "adv" /\ Advance(E.d)
  \/ E.e = "new" /\ New(E.i, E.run)
  \/ E.e = "copy" /\ CopyTimer(E.i, E.j)
  \/ E.e = "start" /\ Start(E.i)
  \/ E.e = "stop" /\ Stop(E.i)
  \/ E.e = "resume" /\ Resume(E.i)
  \/ /\ E.e = "q" /\ UNCHANGED tvars
     /\ E.el = Elapsed(tm[E.i]) /\ E.stopped = ~tm[E.i].run
     /\ FormatOK(E.el, E.f) /\ E.def
  \/ E.e = "auto" /\ AutoNew(E.k) /\ E.fmt /\ E.out = <<>>
  \/ E.e = "aq" /\ UNCHANGED tvars /\ auto # <<>> /\ E.el = AutoElapsed /\ FormatOK(E.el, E.f) /\ E.out = <<>>
  \/ E.e = "report" /\ UNCHANGED tvars /\ auto # <<>> /\ ReportOK(auto[1], AutoElapsed, E.out)
  \/ E.e = "del" /\ auto # <<>> /\ ReportOK(auto[1], AutoElapsed, E.out) /\ AutoEnd
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
