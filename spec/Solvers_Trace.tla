---------------------------- MODULE Solvers_Trace ----------------------------
EXTENDS TraceBase, Solvers
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "bvp" /\ Holds(BvpOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "dpg" /\ Holds(DpgOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "flow" /\ Holds(FlowConst(mesh, E)) /\ UNCHANGED mesh
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
