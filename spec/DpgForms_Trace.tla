---------------------------- MODULE DpgForms_Trace ----------------------------
EXTENDS TraceBase, DpgForms
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "mat" /\ Holds(DpgMatOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "vec" /\ Holds(DpgVecOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "dpg" /\ Holds(OptOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "wrap" /\ Holds(WrapOK(E)) /\ UNCHANGED mesh
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
