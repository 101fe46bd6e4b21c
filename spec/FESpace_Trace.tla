----------------------------- MODULE FESpace_Trace -----------------------------
(* Events: mesh, space, fe (continuity), proj (polynomials), projsel, int, ess    *)
EXTENDS TraceBase, FESpace
VARIABLES l, mesh, sp
vars == <<l, mesh, sp>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh /\ sp = <<>>
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh /\ sp' = <<>>
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells] /\ sp' = <<>>
  \/ E.e = "space" /\ Holds(SpaceOK(mesh, E)) /\ sp' = (E.id :> E) @@ sp /\ UNCHANGED mesh
  \/ /\ E.e = "fe" /\ Holds(ContOK(mesh, E))
     /\ Holds(sp[E.id].k = "lagr" => LagrOK(mesh, sp[E.id], E))
     /\ UNCHANGED <<mesh, sp>>
  \/ E.e = "proj" /\ Holds(ProjOK(mesh, sp[E.id], E)) /\ UNCHANGED <<mesh, sp>>
  \/ E.e = "projsel" /\ Holds(ProjSelOK(mesh, sp[E.id], E)) /\ UNCHANGED <<mesh, sp>>
  \/ E.e = "int" /\ Holds(IntOK(mesh, E)) /\ UNCHANGED <<mesh, sp>>
  \/ E.e = "ess" /\ Holds(EssOK(mesh, sp[E.id], E)) /\ UNCHANGED <<mesh, sp>>
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
