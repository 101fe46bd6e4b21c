-------------------------- MODULE MeshFactory_Trace --------------------------
(* Binding of MeshFactory: logs of real factories and meshes.                  *)
(* Events: reset | conf(check) | pt(x,ret) | ent(n,g,ret) | mesh(...) | big    *)
(* and for calls that may be refused: try(op,n) followed by the event or abort *)
EXTENDS MeshFactory, BigMesh, TraceBase

VARIABLES l, check, pend
vars == <<l, pts, ue, uc, check, pend>>

NoCall == [op |-> "-"]
Init == FInit /\ l = 1 /\ check = TRUE /\ pend = NoCall

E == Trace[l]
Reset == E.e = "reset" /\ pts' = <<>> /\ ue' = <<>> /\ uc' = <<>> /\ check' = TRUE /\ pend' = NoCall
Conf  == E.e = "conf" /\ check' = E.check /\ UNCHANGED <<fvars, pend>>
\* is the call something the factory has to accept?
ValidCall(c) ==
  CASE c.op = "P" -> TRUE
    [] c.op = "E" -> Len(c.n) = 2 /\ InRange(c.n)
    [] c.op = "T" -> Len(c.n) = 3 /\ InRange(c.n)
    [] c.op = "Q" -> Len(c.n) = 4 /\ InRange(c.n)
    [] c.op = "B" -> Buildable(check)
Try == E.e = "try" /\ pend = NoCall /\ pend' = E /\ UNCHANGED <<fvars, check>>
\* a refused call aborts the process: nothing can follow but a reset
Refused == E.e = "abort" /\ pend # NoCall /\ ~ValidCall(pend) /\ UNCHANGED <<fvars, check, pend>>
Pt    == E.e = "pt" /\ AddPoint(E.x, E.ret) /\ UNCHANGED check /\ pend' = NoCall
Ent   == /\ E.e = "ent"
         /\ IF pend.op = "-" THEN TRUE ELSE ValidCall(pend)
         /\ IF Len(E.n) = 2 THEN AddEdge(E.n, E.g, E.ret) ELSE AddCell(E.n, E.ret)
         /\ UNCHANGED check /\ pend' = NoCall

Ident(k) == [i \in 1..k |-> i - 1]
Lookups(m) ==
  LET nn == <<Len(m.cells), Len(m.edges), Len(m.pts)>>
      ntria == Cardinality({c \in 1..Len(m.cells) : Len(m.cells[c].v) = 3})
  IN /\ m.nb = nn
     /\ m.nt = <<nn[3], nn[2], ntria, nn[1] - ntria>>
     /\ \A k \in 1..3 :
          /\ m.ix[k] = Ident(nn[k])                       \* Index(EntityByIndex(i)) = i
          /\ Len(m.en[k]) = nn[k] /\ SetOf(m.en[k]) = 0..(nn[k]-1)  \* each entity enumerated once
     /\ m.ret = <<[i \in 1..nn[1] |-> Len(m.cells[i].v)], [i \in 1..nn[2] |-> 2], [i \in 1..nn[3] |-> 1]>>
     /\ m.eo = [i \in 1..nn[2] |-> <<-1, 1>>]          \* an edge runs from its first to its second endpoint
     /\ m.own /\ ~m.foreign /\ m.self /\ m.codim /\ m.eq
     /\ m.dims = <<2, m.dw>>

MeshEv == /\ E.e = "mesh"
          /\ Build(E, check)
          /\ Holds(Lookups(E))
          /\ UNCHANGED check /\ pend' = NoCall

\* a large mesh, built by a factory of its own
Big == E.e = "big" /\ Holds(BigOK(E)) /\ UNCHANGED <<fvars, check, pend>>

Next == /\ l <= N
        /\ l' = l + 1
        /\ (Reset \/ Big \/ Conf \/ Try \/ Refused \/ Pt \/ Ent \/ MeshEv)
Spec == Init /\ [][Next]_vars
=============================================================================
