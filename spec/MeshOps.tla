------------------------------- MODULE MeshOps -------------------------------
(* A mesh as the library presents it:                                          *)
(*   m.pts[i+1]    coordinates of node i                                       *)
(*   m.edges[i+1]  <<first node, second node>> of edge i                       *)
(*   m.cells[i+1]  [v |-> nodes, e |-> edges, o |-> +-1 orientation of edges]  *)
EXTENDS RefElem

CellSides(cells) == UNION {Sides(cells[c]) : c \in 1..Len(cells)}

\* topological sanity of a mesh: edges and cells fit together
Coherent(m) ==
  /\ \A i \in 1..Len(m.edges) :
       /\ Len(m.edges[i]) = 2
       /\ m.edges[i][1] # m.edges[i][2]
       /\ SetOf(m.edges[i]) \subseteq 0..(Len(m.pts) - 1)
  /\ \A c \in 1..Len(m.cells) :
       LET r == m.cells[c]
           nv == Len(r.v)
       IN /\ nv \in {3, 4}
          /\ Len(r.e) = nv /\ Len(r.o) = nv
          /\ SetOf(r.v) \subseteq 0..(Len(m.pts) - 1)
          /\ \A j \in 1..nv :
               /\ r.e[j] \in 0..(Len(m.edges) - 1)
               /\ LET ed == m.edges[r.e[j] + 1]
                      ds == DirSide(r.v, j)
                  IN /\ SetOf(ed) = SetOf(ds)
                     /\ r.o[j] = (IF ed[1] = ds[1] THEN 1 ELSE -1)

\* each edge is a distinct pair
NoDupEdges(m) == Cardinality({SetOf(m.edges[i]) : i \in 1..Len(m.edges)}) = Len(m.edges)

\* m is a mesh of: points pts, user edges ue (sequence of records
\* [n |-> <<a,b>>, g |-> geometry kind]), cells uc (sequence of vertex tuples)
IsMeshOf(m, pts, ue, uc) ==
  /\ m.pts = pts
  /\ Len(m.cells) = Len(uc)
  /\ \A c \in 1..Len(uc) : m.cells[c].v = uc[c]
  /\ Len(m.edges) >= Len(ue)
  /\ \A i \in 1..Len(ue) :
        IF ue[i].g # 0 THEN m.edges[i] = ue[i].n ELSE SetOf(m.edges[i]) = SetOf(ue[i].n)
  /\ {SetOf(m.edges[i]) : i \in 1..Len(m.edges)}
        = CellSides(uc) \cup {SetOf(ue[i].n) : i \in 1..Len(ue)}
  /\ NoDupEdges(m)
  /\ Coherent(m)
=============================================================================
