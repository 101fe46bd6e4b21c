----------------------------- MODULE RefPat_Trace -----------------------------
(* Events: pat (a pattern as listed by the library) | refuse                    *)
EXTENDS RefPat, TraceBase
VARIABLES l, seen
vars == <<l, seen>>
E == Trace[l]
Init == l = 1 /\ seen = {}
Ok == CASE E.nv = 1 -> PointPatternOK(E.pat, E.nc, E.poly[1])
        [] E.nv = 2 -> SegPatternOK(E.pat, E.L, E.nc, E.poly[1], E.poly[2])
        [] OTHER -> PatternOK(E.nv, E.pat, E.a, E.L, E.nc, E.poly[1], E.poly[2], E.poly[3])
Step ==
  \/ E.e = "reset" /\ seen' = {}
  \/ E.e = "pat" /\ Holds(Ok) /\ seen' = seen \cup {<<E.nv, E.pat, E.a>>}
  \/ E.e = "para" /\ UNCHANGED seen  \* a lattice polygon is a parallelogram
       /\ Holds(E.r = (Len(E.p) = 4 /\ \A i \in 1..2 : E.p[1][i] + E.p[3][i] = E.p[2][i] + E.p[4][i]))
  \/ E.e = "all" /\ UNCHANGED seen   \* every pattern has been listed
       /\ Holds(\A nv \in 1..4 : \A p \in Patterns(nv) :
            IF NeedsAnchor(nv, p) THEN \A a \in 0..(nv - 1) : <<nv, p, a>> \in seen
            ELSE <<nv, p, -1>> \in seen)
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
