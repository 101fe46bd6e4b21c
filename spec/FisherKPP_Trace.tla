--------------------------- MODULE FisherKPP_Trace ---------------------------
EXTENDS TraceBase, FisherKPP
VARIABLES l, mesh, nd
vars == <<l, mesh, nd>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh /\ nd = <<>>
Same == UNCHANGED <<mesh, nd>>
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh /\ nd' = <<>>
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells] /\ nd' = E.nd
  \/ E.e = "gal" /\ Holds(GalOK(mesh, nd, E)) /\ Same
  \/ E.e = "evo" /\ Holds(EvoOK(E)) /\ Same
  \/ E.e = "diff" /\ Holds(DiffOK(mesh, nd, E)) /\ Same
  \/ E.e = "int" /\ Holds(IntOK(mesh, E)) /\ Same
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
