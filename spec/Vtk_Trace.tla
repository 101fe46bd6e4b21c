------------------------------ MODULE Vtk_Trace ------------------------------
(* Events: reset | mesh(...) | open(codim, order) | bin(b) | gd | md | mf (ok:  *)
(* accepted) | close(file) | raw(...,file)                                      *)
EXTENDS VtkFile, TraceBase
VARIABLES l, mesh, w
vars == <<l, mesh, w>>
E == Trace[l]
None == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>, ge |-> <<>>, gc |-> <<>>]
Init == l = 1 /\ mesh = None /\ w = NewWriter(0, 1)
Reset == E.e = "reset" /\ mesh' = None /\ w' = NewWriter(0, 1)
MeshEv == /\ E.e = "mesh" /\ UNCHANGED w
          /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells, ge |-> E.ge, gc |-> E.gc]
Open == E.e = "open" /\ w' = NewWriter(E.codim, E.order) /\ UNCHANGED mesh
Bin == E.e = "bin" /\ w' = [w EXCEPT !.bin = E.b] /\ UNCHANGED mesh
Global == /\ E.e = "gd" /\ Holds(E.ok = NameOK(w.fd, E.name)) /\ UNCHANGED mesh
          /\ w' = IF E.ok THEN AddGlobal(w, E) ELSE w
DataEv == /\ E.e \in {"md", "mf"} /\ Holds(E.ok = NameOK(IF E.kind = "p" THEN w.pd ELSE w.cd, E.name)) /\ UNCHANGED mesh
          /\ w' = IF ~E.ok THEN w ELSE IF E.e = "md" THEN AddSet(w, E) ELSE AddFunction(w, E)
Close == E.e = "close" /\ Holds(FileOK(mesh, w, E.file)) /\ UNCHANGED <<mesh, w>>
Raw == E.e = "raw" /\ Holds(RawOK(E, E.file)) /\ UNCHANGED <<mesh, w>>
Next == l <= N /\ l' = l + 1 /\ (Reset \/ MeshEv \/ Open \/ Bin \/ Global \/ DataEv \/ Close \/ Raw)
Spec == Init /\ [][Next]_vars
===============================================================================
