------------------------------- MODULE GmshFile -------------------------------
(* The meaning of Gmsh mesh files (formats 2.2 and 4.1), independent of how    *)
(* they are encoded as bytes.                                                  *)
(* Format 2: [v |-> 2, nodes |-> seq of [t, x],                                *)
(*            els |-> seq of [t, k, n, ph, el, part], names |-> seq of         *)
(*            [d |-> dimension, nr |-> number, s |-> name]]                    *)
(*   an element belonging to several groups is listed once per group, in a row.*)
(* Format 4: [v |-> 4, ents |-> <<points, curves, surfaces, volumes>> each a   *)
(*            seq of [t |-> tag, ph |-> groups, ...], pents (same, of a         *)
(*            partitioned mesh, or <<>>), nblocks |-> seq of [d, t, nodes],     *)
(*            eblocks |-> seq of [k |-> type, t |-> entity, els |-> seq of     *)
(*            [t, n]], names]                                                  *)
(* Element types by Gmsh number: 15 point, 1 line, 8 second order line,        *)
(* 2 triangle, 9 second order triangle, 3 quadrangle, 16 and 10 second order   *)
(* quadrangle with 8 and 9 nodes.                                              *)
EXTENDS MeshGeometry

ElDim(k) == CASE k = 15 -> 0 [] k \in {1, 8} -> 1 [] OTHER -> 2
NumCorners(k) == CASE k = 15 -> 1 [] k \in {1, 8} -> 2 [] k \in {2, 9} -> 3 [] OTHER -> 4
ElOrder(k) == IF k \in {8, 9, 16, 10} THEN 2 ELSE 1
NumElNodes(k) == CASE k = 15 -> 1 [] k = 1 -> 2 [] k = 8 -> 3 [] k = 2 -> 3 [] k = 9 -> 6
                   [] k = 3 -> 4 [] k = 16 -> 8 [] k = 10 -> 9

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* ---- description common to both formats: nodes and elements with groups ----
RECURSIVE Merge2(_, _)
Merge2(els, acc) ==
  IF els = <<>> THEN acc
  ELSE LET e == Head(els)
           z == IF acc = <<>> THEN e ELSE acc[Len(acc)]
       IN IF acc # <<>> /\ z.k = e.k /\ z.n = e.n
          THEN Merge2(Tail(els), [acc EXCEPT ![Len(acc)] = [@ EXCEPT !.ph = Append(@, e.ph)]])
          ELSE Merge2(Tail(els), Append(acc, [k |-> e.k, n |-> e.n, ph |-> <<e.ph>>]))
Desc2(f) == [nodes |-> f.nodes, els |-> Merge2(f.els, <<>>), names |-> f.names]

GroupsOf(f, d, tag) ==
  LET tab == (IF f.pents = <<>> THEN f.ents ELSE f.pents)[d + 1]
  IN (CHOOSE e \in {tab[i] : i \in 1..Len(tab)} : e.t = tag).ph
Desc4(f) ==
  [nodes |-> Concat([b \in 1..Len(f.nblocks) |-> f.nblocks[b].nodes]),
   els |-> Concat([b \in 1..Len(f.eblocks) |->
             LET B == f.eblocks[b]
                 g == GroupsOf(f, ElDim(B.k), B.t)
             IN [i \in 1..Len(B.els) |-> [k |-> B.k, n |-> B.els[i].n, ph |-> g]]]),
   names |-> f.names]
Desc(f) == IF f.v = 2 THEN Desc2(f) ELSE Desc4(f)

\* ---- the mesh a description stands for -------------------------------------
\* nodes of the mesh: corners of lines and cells; other nodes only carry shape
MainTags(D) == UNION {{D.els[i].n[j] : j \in 1..NumCorners(D.els[i].k)} :
                        i \in {i \in 1..Len(D.els) : ElDim(D.els[i].k) > 0}}
MainNodes(D) == LET M == MainTags(D) IN SelectSeq(D.nodes, LAMBDA n : n.t \in M)
ElsOfDim(D, d) == SelectSeq(D.els, LAMBDA e : ElDim(e.k) = d)

\* the entities as they are to be registered: points, edges, cells
MeshOfFile(D) ==
  LET mn == MainNodes(D)
      num == [t \in {mn[i].t : i \in 1..Len(mn)} |-> (CHOOSE i \in 1..Len(mn) : mn[i].t = t) - 1]
      pos == [t \in {D.nodes[i].t : i \in 1..Len(D.nodes)} |->
                D.nodes[CHOOSE i \in 1..Len(D.nodes) : D.nodes[i].t = t].x]
      reg(e) == LET nc == NumCorners(e.k)
                    nm == IF e.k = 8 THEN 1 ELSE nc
                IN [n |-> [i \in 1..nc |-> num[e.n[i]]],
                    g |-> ElOrder(e.k),
                    m |-> IF ElOrder(e.k) = 2 THEN [i \in 1..nm |-> pos[e.n[nc + i]]] ELSE <<>>]
      ls == ElsOfDim(D, 1)
      cl == ElsOfDim(D, 2)
  IN [p |-> [i \in 1..Len(mn) |-> mn[i].x],
      es |-> [i \in 1..Len(ls) |-> reg(ls[i])],
      cs |-> [i \in 1..Len(cl) |-> reg(cl[i])]]

ReadMeshOK(D, m) ==
  LET M == MeshOfFile(D)
  IN IsMeshOf(m, M.p, M.es, [c \in 1..Len(M.cs) |-> M.cs[c].n])
ReadGeometryOK(D, m, ob) ==
  LET M == MeshOfFile(D)
  IN GeometryOK(m, ob, M.p, M.es, M.cs)

\* ---- physical groups --------------------------------------------------------
\* groups of the entities of codimension c (0 cells, 1 edges, 2 nodes), by index
NodeGroups(D, t) == Concat([i \in 1..Len(D.els) |->
                       IF D.els[i].k = 15 /\ D.els[i].n[1] = t THEN D.els[i].ph ELSE <<>>])
GroupsOfMesh(D, c) ==
  CASE c = 0 -> LET s == ElsOfDim(D, 2) IN [i \in 1..Len(s) |-> s[i].ph]
    [] c = 1 -> LET s == ElsOfDim(D, 1) IN [i \in 1..Len(s) |-> s[i].ph]
    [] c = 2 -> LET s == MainNodes(D) IN [i \in 1..Len(s) |-> NodeGroups(D, s[i].t)]
\* entities beyond those of the file (edges of cells not listed in the file)
\* belong to no group
GroupsAt(G, i) == IF i <= Len(G) THEN G[i] ELSE <<>>
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])

PhysOK(D, m, ph) ==
  /\ Len(ph) = 3
  /\ \A c \in 0..2 :
       LET G == GroupsOfMesh(D, c)
           n == CASE c = 0 -> Len(m.cells) [] c = 1 -> Len(m.edges) [] OTHER -> Len(m.pts)
       IN /\ Len(ph[c + 1]) = n
          /\ \A i \in 1..n : SameBag(ph[c + 1][i], GroupsAt(G, i))
IsOK(D, m, nr, r) ==
  /\ Len(r) = 3
  /\ \A c \in 0..2 :
       LET G == GroupsOfMesh(D, c)
           n == CASE c = 0 -> Len(m.cells) [] c = 1 -> Len(m.edges) [] OTHER -> Len(m.pts)
       IN /\ Len(r[c + 1]) = n
          /\ \A i \in 1..n :
               /\ Len(r[c + 1][i]) = Len(nr)
               /\ \A k \in 1..Len(nr) : r[c + 1][i][k] = (CountIn(GroupsAt(G, i), nr[k]) > 0)

\* ---- names -------------------------------------------------------------------
\* entries of the name table matching a predicate; codim -1: any
Hits(D, P(_), c) == {i \in 1..Len(D.names) : P(D.names[i]) /\ (c = -1 \/ 2 - D.names[i].d = c)}
\* the answer exists iff exactly one entry matches
NameToNumberOK(D, name, c, ok, r) ==
  LET H == Hits(D, LAMBDA e : e.s = name, c)
  IN /\ ok = (Cardinality(H) = 1)
     /\ ok => r = D.names[CHOOSE i \in H : TRUE].nr
NumberToNameOK(D, nr, c, ok, r) ==
  LET H == Hits(D, LAMBDA e : e.nr = nr, c)
  IN /\ ok = (Cardinality(H) = 1)
     /\ ok => r = D.names[CHOOSE i \in H : TRUE].s
GroupListOK(D, c, r) ==
  LET H == {i \in 1..Len(D.names) : 2 - D.names[i].d = c}
      E == {[nr |-> D.names[i].nr, s |-> D.names[i].s] : i \in H}
  IN Len(r) = Cardinality(H) /\ {r[i] : i \in 1..Len(r)} = E
===============================================================================
