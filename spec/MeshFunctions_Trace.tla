-------------------------- MODULE MeshFunctions_Trace --------------------------
EXTENDS TraceBase, MeshFunctions
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "ev" /\ Holds(EvOK(mesh, E)) /\ UNCHANGED mesh
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
