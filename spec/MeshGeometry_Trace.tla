-------------------------- MODULE MeshGeometry_Trace --------------------------
(* Events: reset | conf | pt | ent(n,g,m) | mesh(...) | geo(ed,sd,ct,pg)        *)
EXTENDS MeshGeometry, TraceBase
VARIABLES l, es, cs, mesh
\* es, cs: edges and cells with geometry data; mesh: the last mesh built
vars == <<l, pts, ue, uc, es, cs, mesh>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == FInit /\ l = 1 /\ es = <<>> /\ cs = <<>> /\ mesh = NoMesh
Reset == E.e = "reset" /\ pts' = <<>> /\ ue' = <<>> /\ uc' = <<>> /\ es' = <<>> /\ cs' = <<>> /\ mesh' = NoMesh
Conf == E.e = "conf" /\ UNCHANGED <<pts, ue, uc, es, cs, mesh>>
Pt == E.e = "pt" /\ AddPoint(E.x, E.ret) /\ UNCHANGED <<es, cs, mesh>>
Reg(f) == [n |-> f.n, g |-> f.g, m |-> Chunk(f.m, Len(pts[1]))]
Ent == /\ E.e = "ent" /\ UNCHANGED mesh
       /\ IF Len(E.n) = 2 THEN AddEdge(E.n, E.g, E.ret) /\ es' = Append(es, Reg(E)) /\ UNCHANGED cs
          ELSE AddCell(E.n, E.ret) /\ cs' = Append(cs, Reg(E)) /\ UNCHANGED es
\* the points stay known for the geometry check that follows
MeshEv == /\ E.e = "mesh" /\ Holds(IsMeshOf(E, pts, ue, uc))
          /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
          /\ pts' = <<>> /\ ue' = <<>> /\ uc' = <<>> /\ UNCHANGED <<es, cs>>
Geo == /\ E.e = "geo" /\ Holds(GeometryOK(mesh, E, mesh.pts, es, cs))
       /\ es' = <<>> /\ cs' = <<>> /\ mesh' = NoMesh /\ UNCHANGED <<pts, ue, uc>>
Next == l <= N /\ l' = l + 1 /\ (Reset \/ Conf \/ Pt \/ Ent \/ MeshEv \/ Geo)
Spec == Init /\ [][Next]_vars
===============================================================================
