------------------------------ MODULE Refinement ------------------------------
(* Nested hierarchies of hybrid meshes. A level is what the library reports:   *)
(*  m  : mesh (MeshOps)                                                        *)
(*  eg : nodes of the shape of each edge  (2 corners, midpoint)                *)
(*  cg : nodes of the shape of each cell  (corners, side midpoints)            *)
(*  re : local number of the refinement edge of each cell (-1: none)           *)
(* ord is the order (1,2) of all shapes. Coordinates are integers.             *)
EXTENDS MeshOps, Shapes, RefPat, TLC

NVc(lv, c) == Len(lv.m.cells[c].v)
CellShape(lv, ord, c) == [nv |-> NVc(lv, c), k |-> ord, n |-> IF ord = 1 THEN SubSeq(lv.cg[c], 1, NVc(lv, c)) ELSE lv.cg[c]]
EdgeShape(lv, ord, i) == [nv |-> 2, k |-> ord, n |-> IF ord = 1 THEN SubSeq(lv.eg[i], 1, 2) ELSE lv.eg[i]]

(* ---- which edges are split ------------------------------------------------ *)
EdgeNo(lv, c, j) == lv.m.cells[c].e[j + 1] + 1            \* j 0-based side, 1-based edge
\* refinement edges enforced by the split edges S
Forced(lv, S) == {EdgeNo(lv, c, lv.re[c]) :
                    c \in {x \in 1..Len(lv.m.cells) : NVc(lv, x) = 3 /\ \E j \in 0..2 : EdgeNo(lv, x, j) \in S}}
RECURSIVE Closure(_, _)
Closure(lv, S) == LET T == S \cup Forced(lv, S) IN IF T = S THEN S ELSE Closure(lv, T)
SplitEdges(lv, kind, marked) ==
  IF kind \in {"regular", "barycentric"} THEN 1..Len(lv.m.edges)
  ELSE Closure(lv, {i + 1 : i \in marked})

(* ---- pattern of a cell ----------------------------------------------------- *)
SplitOf(lv, c, S) == {j \in 0..(NVc(lv, c) - 1) : EdgeNo(lv, c, j) \in S}
PatternFor(lv, kind, c, S) == \* <<pattern, anchor>>
  LET nv == NVc(lv, c)
      B == SplitOf(lv, c, S)
  IN IF kind = "barycentric" THEN <<"barycentric", 0>>
     ELSE IF B = {} THEN <<"copy", 0>>
     ELSE IF B = 0..(nv - 1) THEN <<"regular", 0>>
     ELSE IF nv = 3 THEN
       LET a == lv.re[c]
       IN IF Cardinality(B) = 1 THEN <<"bisect", a>>
          ELSE IF (a + 1) % 3 \in B THEN <<"trisect", a>> ELSE <<"trisect_left", a>>
     ELSE IF Cardinality(B) = 1 THEN <<"trisect", CHOOSE j \in B : TRUE>>
     ELSE IF Cardinality(B) = 3 THEN <<"threeedge", CHOOSE j \in B : (j + 1) % 4 \in B /\ (j + 3) % 4 \in B>>
     ELSE IF \E j \in B : (j + 1) % 4 \in B THEN <<"quadsect", CHOOSE j \in B : (j + 1) % 4 \in B>>
     ELSE <<"bisect", CHOOSE j \in B : TRUE>>

(* ---- cells as sets of sides with their coordinates -------------------------- *)
\* a side: {end points} and, for second order, its midpoint
SideKey(p, q, mid, ord) == IF ord = 1 THEN <<{p, q}>> ELSE <<{p, q}, mid>>
Half(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>   \* lattice coordinates are even
ImgSide(s, ord, p, q) ==
  LET h == Half(p, q)
  IN SideKey(MapZ(s, p[1], p[2]), MapZ(s, q[1], q[2]), MapZ(s, h[1], h[2]), ord)
ImgCell(s, ord, q) == {ImgSide(s, ord, q[i], q[(i % Len(q)) + 1]) : i \in 1..Len(q)}
ExpCells(lv, ord, kind, S) ==
  UNION {LET pa == PatternFor(lv, kind, c, S)
             s == CellShape(lv, ord, c)
         IN {ImgCell(s, ord, q) : q \in Children(s.nv, pa[1], pa[2])} : c \in 1..Len(lv.m.cells)}
ExpCellCount(lv, kind, S) ==
  LET RECURSIVE cnt(_)
      cnt(c) == IF c = 0 THEN 0
                ELSE LET pa == PatternFor(lv, kind, c, S) IN Cardinality(Children(NVc(lv, c), pa[1], pa[2])) + cnt(c - 1)
  IN cnt(Len(lv.m.cells))
ExpEdges(lv, ord, kind, S) ==
  {LET s == EdgeShape(lv, ord, i) IN ImgSide(s, ord, <<0,0>>, <<12,0>>) : i \in (1..Len(lv.m.edges)) \ S}
  \cup UNION {LET s == EdgeShape(lv, ord, i) IN {ImgSide(s, ord, <<0,0>>, <<6,0>>), ImgSide(s, ord, <<6,0>>, <<12,0>>)} : i \in S}
  \cup UNION {LET pa == PatternFor(lv, kind, c, S)
                  s == CellShape(lv, ord, c)
                  Q == Children(s.nv, pa[1], pa[2])
              IN {LET p == CHOOSE x \in t : TRUE
                      q == CHOOSE x \in t : x # p
                  IN ImgSide(s, ord, p, q) : t \in {x \in UNION {Outline(q) : q \in Q} : ~ OnBd(s.nv, 12, x)}}
                : c \in 1..Len(lv.m.cells)}
ExpPoints(lv, ord, kind, S) ==
  SetOf(lv.m.pts)
  \cup {MapZ(EdgeShape(lv, ord, i), 6, 0) : i \in S}
  \cup UNION {LET pa == PatternFor(lv, kind, c, S)
                  s == CellShape(lv, ord, c)
              IN IF pa[1] = "barycentric" \/ (s.nv = 4 /\ pa[1] = "regular")
                 THEN {MapZ(s, Ctr(s.nv)[1], Ctr(s.nv)[2])} ELSE {}
              : c \in 1..Len(lv.m.cells)}

(* ---- observations of a level ------------------------------------------------ *)
ObsCell(lv, ord, c) ==
  LET n == NVc(lv, c) g == lv.cg[c]
  IN {SideKey(g[i], g[(i % n) + 1], g[n + i], ord) : i \in 1..n}
\* a level is a mesh whose shapes fit its topology
LevelOK(lv, ord) ==
  /\ Coherent(lv.m) /\ NoDupEdges(lv.m)
  /\ Cardinality(SetOf(lv.m.pts)) = Len(lv.m.pts)
  /\ CellSides([c \in 1..Len(lv.m.cells) |-> lv.m.cells[c].v]) \subseteq {SetOf(lv.m.edges[i]) : i \in 1..Len(lv.m.edges)}
  /\ \A i \in 1..Len(lv.m.edges) : \A k \in 1..2 : lv.eg[i][k] = lv.m.pts[lv.m.edges[i][k] + 1]
  /\ \A c \in 1..Len(lv.m.cells) : \A k \in 1..NVc(lv, c) :
        /\ lv.cg[c][k] = lv.m.pts[lv.m.cells[c].v[k] + 1]
        /\ lv.cg[c][NVc(lv, c) + k] = lv.eg[EdgeNo(lv, c, k - 1)][3]
  /\ \A c \in 1..Len(lv.m.cells) : lv.re[c] \in (IF NVc(lv, c) = 3 THEN 0..2 ELSE {-1})
  \* the mapping of the cell is the one given by these nodes (tested in the center)
  /\ \A c \in 1..Len(lv.m.cells) :
       LET s == CellShape(lv, ord, c)
           x == MapD(s, Ctr(s.nv)[1], Ctr(s.nv)[2])
           d == Den(s.nv, s.k)
       IN \A k \in 1..Len(x) : lv.cc[c][k] = IF d = 12 THEN 3 * x[k] ELSE x[k] \div (d \div 36)

\* refinement edges of the coarsest level: a longest edge
BaseRefEdges(lv, unit) ==
  \A c \in 1..Len(lv.m.cells) : NVc(lv, c) = 3 =>
    LET p(k) == lv.cg[c][(k % 3) + 1]
        sq(x) == x * x
        RECURSIVE d2(_, _)
        d2(k, i) == IF i = 0 THEN 0 ELSE sq((p(k)[i] - p(k + 1)[i]) \div unit) + d2(k, i - 1)
    IN \A k \in 0..2 : d2(lv.re[c], Len(p(0))) >= d2(k, Len(p(0)))

\* fine is the refinement of lv
IsRefinement(lv, fine, ord, kind, marked) ==
  LET S == SplitEdges(lv, kind, marked)
  IN /\ LevelOK(fine, ord)
     /\ {ObsCell(fine, ord, c) : c \in 1..Len(fine.m.cells)} = ExpCells(lv, ord, kind, S)
     /\ Len(fine.m.cells) = ExpCellCount(lv, kind, S)
     /\ {SideKey(fine.eg[i][1], fine.eg[i][2], fine.eg[i][3], ord) : i \in 1..Len(fine.m.edges)} = ExpEdges(lv, ord, kind, S)
     /\ SetOf(fine.m.pts) = ExpPoints(lv, ord, kind, S)

\* a copied triangle keeps its refinement edge; the similar children of a
\* regularly refined triangle inherit the parallel one
InheritRefEdges(lv, fine, ord, kind, marked) ==
  LET S == SplitEdges(lv, kind, marked)
      keyof(c) == ObsCell(fine, ord, c)
      redge(x, c) == {x.cg[c][x.re[c] + 1], x.cg[c][((x.re[c] + 1) % 3) + 1]}
  IN \A c \in {x \in 1..Len(lv.m.cells) : NVc(lv, x) = 3 /\ PatternFor(lv, kind, x, S)[1] \in {"copy", "regular"}} :
       LET pa == PatternFor(lv, kind, c, S)
           s == CellShape(lv, ord, c)
           a == lv.re[c]
           \* lattice direction of the refinement edge
           dir(p, q) == <<q[1] - p[1], q[2] - p[2]>>
           d0 == dir(Corner(3, a), Corner(3, a + 1))
       IN \A q \in Children(3, pa[1], pa[2]) :
            LET f == CHOOSE x \in 1..Len(fine.m.cells) : keyof(x) = ImgCell(s, ord, q)
                par == CHOOSE i \in 1..3 : LET d == dir(q[i], q[(i % 3) + 1]) IN d[1] * d0[2] = d[2] * d0[1]
                img(p) == MapZ(s, p[1], p[2])
            IN redge(fine, f) = {img(q[par]), img(q[(par % 3) + 1])}
===============================================================================
