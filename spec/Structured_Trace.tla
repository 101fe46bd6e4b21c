--------------------------- MODULE Structured_Trace ---------------------------
EXTENDS Structured, TraceBase
VARIABLES l
Init == l = 1
E == Trace[l]
Next == l <= N /\ l' = l + 1 /\ (E.e = "reset" \/ (E.e = "tp" /\ Holds(BuilderOK(E))))
Spec == Init /\ [][Next]_l
===============================================================================
