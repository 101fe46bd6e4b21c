------------------------------- MODULE BigMesh -------------------------------
(* Large grids, too large to be logged entity by entity: counts of entities in *)
(* closed form and the cells of sampled squares with their edges.              *)
(* g = <<nx, ny, a, b, m, K>>: the node (i,j) of the grid has the number       *)
(* a*(i*(ny+1)+j)+b modulo the number of nodes, squares (i,j) with i % m = 0   *)
(* are split into two triangles, the first K edges of the lowest row have been *)
(* registered in reverse direction.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Num(g, i, j) == (g[3] * (i * (g[2] + 1) + j) + g[4]) % ((g[1] + 1) * (g[2] + 1))
IsSplit(g, i) == IF g[5] > 0 THEN i % g[5] = 0 ELSE FALSE
SplitCols(g) == IF g[5] > 0 THEN (g[1] + g[5] - 1) \div g[5] ELSE 0
BigCorners(g, q) ==
  LET A == Num(g, q.i, q.j) B == Num(g, q.i + 1, q.j) C == Num(g, q.i + 1, q.j + 1) D == Num(g, q.i, q.j + 1)
  IN IF ~IsSplit(g, q.i) THEN <<A, B, C, D>> ELSE IF q.c = 0 THEN <<A, B, C>> ELSE <<A, C, D>>
BigCellOK(E, q) ==
  LET v == BigCorners(E.g, q) n == Len(v)
  IN /\ q.v = v /\ Len(q.ed) = n /\ Len(q.en) = n /\ Len(q.o) = n
     /\ \A k \in 1..n :
          LET s == <<v[k], v[IF k = n THEN 1 ELSE k + 1]>>
          IN /\ q.ed[k] \in 0..(E.nb[2] - 1)
             /\ q.en[k] \in {s, <<s[2], s[1]>>}
             /\ q.o[k] = (IF q.en[k] = s THEN 1 ELSE -1)
             \* an edge registered explicitly keeps its number and its direction, the others come after them
             /\ IF k = 1 /\ q.j = 0 /\ q.c = 0 /\ q.i < E.g[6]
                THEN q.ed[k] = q.i /\ q.en[k] = <<s[2], s[1]>>
                ELSE q.ed[k] >= E.g[6]
BigSides(E) == {<<x, k>> \in (1..Len(E.smp)) \X (1..4) : k <= Len(E.smp[x].ed)}
BigOK(E) ==
  LET nx == E.g[1] ny == E.g[2] S == SplitCols(E.g)
  IN /\ E.nb = <<ny * (nx + S), nx * (ny + 1) + ny * (nx + 1) + ny * S, (nx + 1) * (ny + 1), 2 * ny * S, ny * (nx - S)>>
     /\ E.cons /\ E.bij
     /\ E.pairs = E.nb[2]                     \* no two edges with the same endpoints
     /\ \A x \in 1..Len(E.smp) : BigCellOK(E, E.smp[x])
     \* cells share a side iff they have an edge with these endpoints in common
     /\ \A p \in BigSides(E) : \A r \in BigSides(E) :
          (E.smp[p[1]].ed[p[2]] = E.smp[r[1]].ed[r[2]]) <=> (E.smp[p[1]].en[p[2]] = E.smp[r[1]].en[r[2]])
==============================================================================
