----------------------------- MODULE MeshFactory -----------------------------
(* The mesh factory: a builder that collects points, edges and cells and turns *)
(* them into a mesh; it is empty again afterwards.                             *)
EXTENDS MeshOps, TLC

VARIABLES pts,  \* sequence of coordinates
          ue,   \* sequence of user supplied edges [n, g]
          uc    \* sequence of cells (vertex tuples)
fvars == <<pts, ue, uc>>

FInit == pts = <<>> /\ ue = <<>> /\ uc = <<>>

InRange(n) == SetOf(n) \subseteq 0..(Len(pts) - 1)
Distinct(n) == Cardinality(SetOf(n)) = Len(n)

\* Each call returns the index of the new entity: ret
AddPoint(x, ret) ==
  /\ ret = Len(pts)
  /\ pts' = Append(pts, x) /\ UNCHANGED <<ue, uc>>

AddEdge(n, g, ret) ==
  /\ Len(n) = 2 /\ InRange(n)
  /\ ret = Len(ue)
  /\ ue' = Append(ue, [n |-> n, g |-> g]) /\ UNCHANGED <<pts, uc>>

AddCell(n, ret) ==
  /\ Len(n) \in {3, 4} /\ InRange(n)
  /\ ret = Len(uc)
  /\ uc' = Append(uc, n) /\ UNCHANGED <<pts, ue>>

UserSides == {SetOf(ue[i].n) : i \in 1..Len(ue)}
\* What the factory must refuse to build (check: completeness check is on)
NoLoops == /\ \A i \in 1..Len(ue) : Distinct(ue[i].n)
           /\ \A c \in 1..Len(uc) : \A j \in 1..Len(uc[c]) : Distinct(DirSide(uc[c], j))
NoDuplicates == Cardinality(UserSides) = Len(ue)
Complete == /\ UserSides \subseteq CellSides(uc)
            /\ UNION (UserSides \cup CellSides(uc)) = 0..(Len(pts) - 1)
Buildable(check) == NoLoops /\ NoDuplicates /\ (check => Complete)

Build(m, check) ==
  /\ Buildable(check)
  /\ IsMeshOf(m, pts, ue, uc)
  /\ pts' = <<>> /\ ue' = <<>> /\ uc' = <<>>
=============================================================================
