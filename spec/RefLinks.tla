------------------------------- MODULE RefLinks -------------------------------
(* Parent and child records between two consecutive levels.                    *)
(*  ch[cd+1][i]  : pattern, anchor and children (by relative codimension) of   *)
(*                 coarse entity i-1; poly: the child polygons of that pattern *)
(*                 in the reference element (multiples of 1/12)                *)
(*  par[cd+1][i] : parent (codimension pc, index pi), number cn among its      *)
(*                 children; rel: corners of the relative geometry (1/12),     *)
(*                 pg: their images under the parent's mapping, cg: corners of *)
(*                 the entity; pm, cm: the same for side midpoints             *)
EXTENDS Refinement

NumEnt(lv, cd) == CASE cd = 0 -> Len(lv.m.cells) [] cd = 1 -> Len(lv.m.edges) [] cd = 2 -> Len(lv.m.pts)
NVof(lv, cd, i) == CASE cd = 0 -> Len(lv.m.cells[i].v) [] cd = 1 -> 2 [] cd = 2 -> 1

LinksOK(crs, fin, E, ord) ==
  /\ \A cd \in 0..2 : Len(E.ch[cd+1]) = NumEnt(crs, cd) /\ Len(E.par[cd+1]) = NumEnt(fin, cd)
  \* children as announced by the pattern
  /\ \A cd \in 0..2 : \A i \in 1..NumEnt(crs, cd) :
       LET r == E.ch[cd+1][i]
           nv == NVof(crs, cd, i)
       IN /\ r.pat \in Patterns(nv) \ {"nil"}
          /\ NeedsAnchor(nv, r.pat) => r.a \in 0..(nv - 1)
          /\ \A k \in 1..Len(r.kids) : Len(r.kids[k]) = Len(r.poly[k])
          \* the recorded pattern splits the sides which are recorded as split
          /\ cd = 0 => \A j \in 0..(nv - 1) :
               (j \in SplitSides(nv, r.pat, r.a)) = (E.ch[2][EdgeNo(crs, i, j)].pat = "split")
          \* and the cells listed are the images of the polygons of the pattern
          /\ \A k \in 1..Len(r.kids) : \A n \in 1..Len(r.kids[k]) :
               /\ r.kids[k][n] \in 0..(NumEnt(fin, cd + k - 1) - 1)
               \* the child names this entity as its parent
               /\ LET q == E.par[cd + k][r.kids[k][n] + 1]
                  IN q.pc = cd /\ q.pi = i - 1 /\ q.cn = n - 1
  \* parents
  /\ \A cd \in 0..2 : \A i \in 1..NumEnt(fin, cd) :
       LET r == E.par[cd+1][i]
       IN /\ r.pc \in 0..cd
          /\ r.pi \in 0..(NumEnt(crs, r.pc) - 1)
          /\ r.pe = r.pi /\ r.same
          /\ LET p == E.ch[r.pc + 1][r.pi + 1]
                 k == cd - r.pc + 1
                 nv == NVof(crs, r.pc, r.pi + 1)
             IN /\ r.cn \in 0..(Len(p.kids[k]) - 1)
                /\ p.kids[k][r.cn + 1] = i - 1
                \* relative geometry = the child polygon of the pattern
                /\ r.rel = p.poly[k][r.cn + 1]
                /\ r.dims = <<2 - cd, 2 - r.pc>>
          \* mapped by the parent it is the child
          /\ r.pg = r.cg
          /\ (ord = 2 => r.pm = r.cm)
===============================================================================
