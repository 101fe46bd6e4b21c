----------------------------- MODULE Transfer_Trace ----------------------------
EXTENDS TraceBase, Transfer
VARIABLES l, levs
vars == <<l, levs>>
E == Trace[l]
Init == l = 1 /\ levs = <<>>
Step ==
  \/ E.e = "reset" /\ levs' = <<>>
  \/ E.e = "level" /\ E.lev = Len(levs) /\ levs' = Append(levs, [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells, par |-> E.par])
  \/ E.e = "tr" /\ Holds(TrOK(levs, E)) /\ UNCHANGED levs
  \/ E.e = "pro" /\ Holds(ProOK(levs, E)) /\ UNCHANGED levs
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
