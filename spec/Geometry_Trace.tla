---------------------------- MODULE Geometry_Trace ----------------------------
(* Events: obj (a geometry object), ev, met, sub, child (queries)               *)
EXTENDS Geometry, TraceBase
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
NoShape == [nv |-> 0, k |-> 0, n |-> <<>>]
Init == l = 1 /\ s = NoShape
Step ==
  \/ E.e = "reset" /\ s' = NoShape
  \/ E.e = "obj" /\ Holds(ObjOK(E)) /\ s' = ShapeOf(E.ty, E.n)
  \/ E.e \in {"ev", "met"} /\ Holds(EvalOK(s, E)) /\ UNCHANGED s
  \/ E.e = "sub" /\ Holds(SubOK(s, E)) /\ UNCHANGED s
  \/ E.e = "child" /\ Holds(ChildOK(s, E)) /\ UNCHANGED s
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
