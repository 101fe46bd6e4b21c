------------------------------ MODULE RefFE_Trace ------------------------------
(* Events: lagr, point (P19); hier (P21)                                          *)
EXTENDS TraceBase
L == INSTANCE LagrangeFE
H == INSTANCE HierarchicFE
VARIABLE l
vars == <<l>>
E == Trace[l]
Init == l = 1
Step == \/ E.e = "reset"
        \/ E.e = "lagr" /\ Holds(L!LagrOK(E))
        \/ E.e = "point" /\ Holds(L!PointOK(E))
        \/ E.e = "hier" /\ Holds(H!HierOK(E))
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
