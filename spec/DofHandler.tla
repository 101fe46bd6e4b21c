------------------------------ MODULE DofHandler ------------------------------
(* Numbering of degrees of freedom. Cnt[k+1][i+1] is the number of interior     *)
(* dofs of entity i of codimension k; the rules are those documented for        *)
(* lf::assemble::DofHandler: all nodes, then all edges, then all cells, each    *)
(* in the order of their indices, contiguously per entity.                      *)
EXTENDS MeshOps

NumEnt(m, k) == CASE k = 2 -> Len(m.pts) [] k = 1 -> Len(m.edges) [] k = 0 -> Len(m.cells)

\* prefix sums of a sequence of naturals: P[i] = s[1]+..+s[i-1]
RECURSIVE Acc(_, _, _)
Acc(s, i, a) == IF i > Len(s) THEN <<a>> ELSE <<a>> \o Acc(s, i + 1, a + s[i])
Prefix(s) == Acc(s, 1, 0)
Last(s) == s[Len(s)]

\* first dof of every entity, by codimension: record of sequences
Starts(cnt) ==
  LET p2 == Prefix(cnt[3])
      p1 == Prefix(cnt[2])
      p0 == Prefix(cnt[1])
      n2 == Last(p2)
      n1 == Last(p1)
  IN [c2 |-> p2, c1 |-> [i \in 1..Len(p1) |-> n2 + p1[i]],
      c0 |-> [i \in 1..Len(p0) |-> n2 + n1 + p0[i]], n |-> n2 + n1 + Last(p0)]

Own(cnt, st, k, i) ==
  LET s == CASE k = 2 -> st.c2 [] k = 1 -> st.c1 [] k = 0 -> st.c0
  IN [j \in 1..cnt[k + 1][i + 1] |-> s[i + 1] + j - 1]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* chk: dofs of a side are listed in the direction of the side
Local(m, cnt, st, chk, k, i) ==
  IF k = 2 THEN Own(cnt, st, 2, i)
  ELSE IF k = 1 THEN
    LET e == m.edges[i + 1]
    IN Own(cnt, st, 2, e[1]) \o Own(cnt, st, 2, e[2]) \o Own(cnt, st, 1, i)
  ELSE
    LET c == m.cells[i + 1]
        nv == Len(c.v)
    IN Cat([j \in 1..nv |-> Own(cnt, st, 2, c.v[j])])
       \o Cat([j \in 1..nv |->
                LET o == Own(cnt, st, 1, c.e[j])
                    against == m.edges[c.e[j] + 1][1] # DirSide(c.v, j)[1]
                IN IF chk /\ against THEN Rev(o) ELSE o])
       \o Own(cnt, st, 0, i)

\* number of dofs per entity for a layout by element type <<point, segment, tria, quad>>
Max0(x) == IF x < 0 THEN 0 ELSE x
Layout(m, lay) ==
  << [i \in 1..Len(m.cells) |-> Max0(lay[Len(m.cells[i].v)])],
     [i \in 1..Len(m.edges) |-> Max0(lay[2])],
     [i \in 1..Len(m.pts) |-> Max0(lay[1])] >>

\* all local lists
Table(m, cnt, chk) ==
  LET st == Starts(cnt)
  IN [n |-> st.n,
      g |-> [k1 \in 1..3 |-> [i1 \in 1..NumEnt(m, k1 - 1) |-> Local(m, cnt, st, chk, k1 - 1, i1 - 1)]],
      in |-> [k1 \in 1..3 |-> [i1 \in 1..NumEnt(m, k1 - 1) |-> Own(cnt, st, k1 - 1, i1 - 1)]]]

\* what a dof handler answers (e) agrees with the numbering T = Table(...)
DofsOK(m, T, e) ==
  /\ e.samemesh
  /\ e.n = T.n
  /\ e.g = T.g
  /\ e.in = T.in
  /\ \A k1 \in 1..3 :
       /\ Len(e.nl[k1]) = NumEnt(m, k1 - 1) /\ Len(e.ni[k1]) = NumEnt(m, k1 - 1)
       /\ \A i \in 1..NumEnt(m, k1 - 1) :
            /\ e.nl[k1][i] = Len(T.g[k1][i])
            /\ e.ni[k1][i] = Len(T.in[k1][i])
            /\ \A d \in 1..Len(T.in[k1][i]) : e.ent[T.in[k1][i][d] + 1] = <<k1 - 1, i - 1>>
  /\ Len(e.ent) = T.n
===============================================================================
