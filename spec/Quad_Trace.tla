------------------------------ MODULE Quad_Trace ------------------------------
(* Events: rule, named, gauss (P17); get, move (P18)                             *)
EXTENDS Quadrature, QuadCache, TraceBase
VARIABLES l, C
vars == <<l, C>>
E == Trace[l]
Init == l = 1 /\ C = EmptyCache
Step ==
  \/ E.e = "reset" /\ C' = EmptyCache
  \/ E.e = "rule" /\ Holds(RuleOK(E.ref, E)) /\ E.deg >= E.want /\ UNCHANGED C
  \/ E.e = "named" /\ Holds(NamedOK(E)) /\ UNCHANGED C
  \/ E.e = "gauss" /\ Holds(GaussOK(E)) /\ UNCHANGED C
  \/ E.e = "get" /\ Holds(GetOK(C, E)) /\ C' = After(C, E)
  \/ E.e = "move" /\ C' = EmptyCache
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
