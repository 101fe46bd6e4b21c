----------------------------- MODULE Export_Trace -----------------------------
(* Events: reset | mesh | level(lev, ...) | ml | mp | tz | h1 | hl              *)
EXTENDS MeshExport, TraceBase
VARIABLES l, mesh, levels
vars == <<l, mesh, levels>>
E == Trace[l]
None == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>, ce |-> <<>>]
Init == l = 1 /\ mesh = None /\ levels = <<>>
Reset == E.e = "reset" /\ mesh' = None /\ levels' = <<>>
MeshEv == E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells, ce |-> E.ce] /\ levels' = <<>>
Level == E.e = "level" /\ UNCHANGED mesh
         /\ levels' = Append(IF E.lev = 0 THEN <<>> ELSE levels,
              [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells, ce |-> E.ce, par |-> E.par, re |-> E.re])
Out == /\ UNCHANGED <<mesh, levels>>
       /\ \/ E.e = "ml" /\ Holds(WriteMatlabOK(mesh, E))
          \/ E.e = "mp" /\ Holds(WriteMatplotlibOK(mesh, E))
          \/ E.e = "tz" /\ Holds(WriteTikZOK(mesh, E))
          \/ E.e = "h1" /\ Holds(WriteLevelOK(levels[Len(levels)], E))
          \/ E.e = "hl" /\ Holds(WriteHierarchyOK(levels, E))
Next == l <= N /\ l' = l + 1 /\ (Reset \/ MeshEv \/ Level \/ Out)
Spec == Init /\ [][Next]_vars
===============================================================================
