---------------------------- MODULE Skeleton_Trace ----------------------------
EXTENDS TraceBase, Skeleton
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "skel" /\ Holds(SkelOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "bqr" /\ Holds(BqrOK(E)) /\ UNCHANGED mesh
  \/ E.e = "flow" /\ Holds(FlowOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "ess" /\ Holds(EssOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "est" /\ Holds(EstOK(mesh, E)) /\ UNCHANGED mesh
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
