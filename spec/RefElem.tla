------------------------------- MODULE RefElem -------------------------------
(* Reference elements (point, segment, triangle, quadrilateral): numbering of  *)
(* sub-entities. Indices of the library are 0-based, sequences here 1-based.   *)
EXTENDS Integers, Sequences, FiniteSets

\* Local side j of a cell with nv vertices runs from vertex SideFrom to SideTo
SideFrom(nv, j) == j
SideTo(nv, j)   == (j % nv) + 1

SetOf(s) == {s[i] : i \in 1..Len(s)}

\* Directed sides of a cell given by its vertex sequence
DirSide(v, j) == <<v[SideFrom(Len(v), j)], v[SideTo(Len(v), j)]>>
SideSet(v, j) == SetOf(DirSide(v, j))
Sides(v) == {SideSet(v, j) : j \in 1..Len(v)}
=============================================================================
