--------------------------- MODULE MeshUtils_Trace ---------------------------
(* Events: reset | mesh | counts | flags | foreign | newc newa set get           *)
EXTENDS MeshUtils, TraceBase
VARIABLES l, mesh, ds
vars == <<l, mesh, ds>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh /\ ds = <<>>
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh /\ ds' = <<>>
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells] /\ ds' = <<>>
  \/ E.e = "counts" /\ Holds(CountsOK(mesh, E.c)) /\ UNCHANGED <<mesh, ds>>
  \/ E.e = "flags" /\ Holds(FlagsOK(mesh, E)) /\ UNCHANGED <<mesh, ds>>
  \/ E.e = "foreign" /\ ~E.def /\ UNCHANGED <<mesh, ds>>
  \/ E.e = "sel" /\ Holds(SelOK(mesh, E)) /\ UNCHANGED <<mesh, ds>>
  \/ E.e = "newc" /\ ds' = (E.id :> NewOn(mesh, E.k, E.v)) @@ ds /\ UNCHANGED mesh
  \/ E.e = "newa" /\ ds' = (E.id :> NewAll(mesh, E.v)) @@ ds /\ UNCHANGED mesh
  \/ E.e = "set" /\ ds' = [ds EXCEPT ![E.id] = Put(@, E.k, E.i, E.v)] /\ UNCHANGED mesh
  \/ E.e = "get" /\ E.d = ds[E.id] /\ UNCHANGED <<mesh, ds>>
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
