--------------------------- MODULE LocalForms_Trace ---------------------------
EXTENDS TraceBase, LocalForms
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "mat" /\ Holds(MatOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "load" /\ Holds(LoadOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "edge" /\ Holds(EdgeOK(mesh, E)) /\ UNCHANGED mesh
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
