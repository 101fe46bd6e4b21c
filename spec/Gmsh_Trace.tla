------------------------------ MODULE Gmsh_Trace ------------------------------
(* Events: reset | file(f) | mesh(...) | geo(...) | phys(ph) | is(nr, r) |      *)
(* n2n(name, c, ok, r) | r2n(nr, c, ok, r) | pe(c, r)                           *)
EXTENDS GmshFile, TraceBase
VARIABLES l, D, mesh
vars == <<l, pts, ue, uc, D, mesh>>
E == Trace[l]
None == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
NoFile == [nodes |-> <<>>, els |-> <<>>, names |-> <<>>]
Init == FInit /\ l = 1 /\ D = NoFile /\ mesh = None
Reset == E.e = "reset" /\ D' = NoFile /\ mesh' = None
FileEv == E.e = "file" /\ D' = Desc(E.f) /\ mesh' = None
MeshEv == /\ E.e = "mesh" /\ Holds(ReadMeshOK(D, E)) /\ UNCHANGED D
          /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
Geo == E.e = "geo" /\ Holds(ReadGeometryOK(D, mesh, E)) /\ UNCHANGED <<D, mesh>>
Phys == E.e = "phys" /\ Holds(PhysOK(D, mesh, E.ph)) /\ UNCHANGED <<D, mesh>>
Is == E.e = "is" /\ Holds(IsOK(D, mesh, E.nr, E.r)) /\ UNCHANGED <<D, mesh>>
N2N == E.e = "n2n" /\ Holds(NameToNumberOK(D, E.name, E.c, E.ok, E.r)) /\ UNCHANGED <<D, mesh>>
R2N == E.e = "r2n" /\ Holds(NumberToNameOK(D, E.nr, E.c, E.ok, E.r)) /\ UNCHANGED <<D, mesh>>
PE == E.e = "pe" /\ Holds(GroupListOK(D, E.c, E.r)) /\ UNCHANGED <<D, mesh>>
Next == l <= N /\ l' = l + 1 /\ UNCHANGED <<pts, ue, uc>>
        /\ (Reset \/ FileEv \/ MeshEv \/ Geo \/ Phys \/ Is \/ N2N \/ R2N \/ PE)
Spec == Init /\ [][Next]_vars
===============================================================================
