--------------------------- MODULE Refinement_Trace ---------------------------
(* Histories of a mesh hierarchy. The state is the sequence of all levels.     *)
(* Events: hier, base, refine, again (a level re-read later), links.           *)
EXTENDS Refinement, RefLinks, TraceBase
VARIABLES l, ord, unit, levs
vars == <<l, ord, unit, levs>>
E == Trace[l]
Lev == [m |-> [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells], eg |-> E.eg, cg |-> E.cg, cc |-> E.cc, re |-> E.re]
Init == l = 1 /\ ord = 1 /\ unit = 1 /\ levs = <<>>
Step ==
  \/ E.e = "reset" /\ levs' = <<>> /\ UNCHANGED <<ord, unit>>
  \/ E.e = "hier" /\ ord' = E.order /\ unit' = E.unit /\ levs' = <<>>
  \/ E.e = "base" /\ levs = <<>> /\ Holds(LevelOK(Lev, ord)) /\ Holds(BaseRefEdges(Lev, unit))
       /\ levs' = <<Lev>> /\ UNCHANGED <<ord, unit>>
  \/ E.e = "refine" /\ levs # <<>>
       /\ LET old == levs[Len(levs)] IN
          /\ Holds(IsRefinement(old, Lev, ord, E.kind, SetOf(E.marked)))
          /\ Holds(InheritRefEdges(old, Lev, ord, E.kind, SetOf(E.marked)))
       /\ levs' = Append(levs, Lev) /\ UNCHANGED <<ord, unit>>
  \/ E.e = "again" /\ \E k \in 1..Len(levs) : ToString(k - 1) = E.kind /\ Holds(levs[k] = Lev)
       /\ UNCHANGED <<ord, unit, levs>>
  \/ E.e = "links" /\ Holds(LinksOK(levs[E.lev], levs[E.lev + 1], E, ord))
       /\ UNCHANGED <<ord, unit, levs>>
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
