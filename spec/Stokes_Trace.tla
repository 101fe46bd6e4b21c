---------------------------- MODULE Stokes_Trace ----------------------------
EXTENDS TraceBase, Stokes
VARIABLES l, mesh
vars == <<l, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
  \/ E.e = "nrm" /\ Holds(NormalsOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "sys" /\ Holds(SystemOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "vel" /\ Holds(VelOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "curl" /\ Holds(CurlOK(E)) /\ UNCHANGED mesh
  \/ E.e = "norm" /\ Holds(NormOK(mesh, E)) /\ UNCHANGED mesh
  \/ E.e = "annulus" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells] /\ Holds(AnnOK(mesh', E))
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
