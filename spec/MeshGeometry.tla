----------------------------- MODULE MeshGeometry -----------------------------
(* Shapes of mesh entities. Curves and cells are described by samples at       *)
(* quarter points, coordinates scaled by 8: exact integers for straight and    *)
(* quadratic shapes with integer data.                                         *)
EXTENDS MeshFactory

Vec(op(_), d) == [k \in 1..d |-> op(k)]
\* 8 * point at parameter t = k/4 on the straight segment a -> b
LinPt(a, b, k) == [x \in 1..Len(a) |-> 2 * ((4 - k) * a[x] + k * b[x])]
\* 8 * point at t = k/4 on the parabola through a, b and, at t = 1/2, m
QuadPt(a, b, m, k) ==
  [x \in 1..Len(a) |-> (4-k)*(2-k)*a[x] + k*(k-2)*b[x] + 2*k*(4-k)*m[x]]
Straight(a, b) == [k \in 1..5 |-> LinPt(a, b, k-1)]
Curve(a, b, m) == [k \in 1..5 |-> QuadPt(a, b, m, k-1)]
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* split a flat list of coordinates into points of dimension d
Chunk(s, d) == [i \in 1..(Len(s) \div d) |-> [x \in 1..d |-> s[(i-1)*d + x]]]

\* cells and edges as registered: [n |-> nodes, g |-> kind, m |-> extra points]
\* kind 0: none, 1: straight/bilinear, 2: second order, 3: parallelogram
\* trace of cell c along its side j (from SideFrom to SideTo)
CellSide(p, c, j) ==
  LET a == p[c.n[SideFrom(Len(c.n), j)] + 1]
      b == p[c.n[SideTo(Len(c.n), j)] + 1]
  IN IF c.g = 2 THEN Curve(a, b, c.m[j]) ELSE Straight(a, b)
\* 8 * value at (1/4,1/4) of a triangle, (1/2,1/2) of a quadrilateral
CellMid(p, c) ==
  LET q(i) == p[c.n[i] + 1]
  IN [x \in 1..Len(q(1)) |->
       IF Len(c.n) = 3
       THEN IF c.g = 2 THEN -q(2)[x] - q(3)[x] + 4*c.m[1][x] + 2*c.m[2][x] + 4*c.m[3][x]
                       ELSE 4*q(1)[x] + 2*q(2)[x] + 2*q(3)[x]
       ELSE IF c.g = 2 THEN 4*(c.m[1][x]+c.m[2][x]+c.m[3][x]+c.m[4][x])
                            - 2*(q(1)[x]+q(2)[x]+q(3)[x]+q(4)[x])
                       ELSE 2*(q(1)[x]+q(2)[x]+q(3)[x]+q(4)[x])]

\* cells of the list containing edge {a,b}, with the side number
Adj(cells, ab) == {<<c, j>> \in (1..Len(cells)) \X (1..4) :
                     j <= Len(cells[c].n) /\ SideSet(cells[c].n, j) = SetOf(ab)}
InDir(s, c, j, first) == IF c.n[SideFrom(Len(c.n), j)] = first THEN s ELSE RevSeq(s)

\* the observed samples ob (ed: edges, sd: cell sides, ct: cell mid, pg: points)
\* of mesh m agree with the registered entities
GeometryOK(m, ob, p, es, cs) ==
  /\ Len(ob.ed) = Len(m.edges) /\ Len(ob.sd) = Len(cs) /\ Len(ob.ct) = Len(cs) /\ Len(ob.pg) = Len(p)
  /\ \A i \in 1..Len(p) : ob.pg[i] = [x \in 1..Len(p[i]) |-> 8 * p[i][x]]
  /\ \A c \in 1..Len(cs) :
       /\ ob.ct[c] = CellMid(p, cs[c])
       /\ Len(ob.sd[c]) = Len(cs[c].n)
       /\ \A j \in 1..Len(cs[c].n) : ob.sd[c][j] = CellSide(p, cs[c], j)
  /\ \A i \in 1..Len(m.edges) :
       LET ab == m.edges[i]
           a == p[ab[1] + 1]
           b == p[ab[2] + 1]
           withgeo == {q \in Adj(cs, ab) : cs[q[1]].g # 0}
       IN \* traversed from first to second node
          /\ ob.ed[i][1] = [x \in 1..Len(a) |-> 8 * a[x]]
          /\ ob.ed[i][5] = [x \in 1..Len(b) |-> 8 * b[x]]
          /\ IF i <= Len(es) /\ es[i].g # 0
             THEN \* geometry as supplied, in the supplied direction
                  /\ ab = es[i].n
                  /\ ob.ed[i] = IF es[i].g = 2 THEN Curve(a, b, es[i].m[1]) ELSE Straight(a, b)
             ELSE IF withgeo # {}
             THEN \E q \in withgeo :
                    ob.ed[i] = InDir(CellSide(p, cs[q[1]], q[2]), cs[q[1]], q[2], ab[1])
             ELSE ob.ed[i] = Straight(a, b)
===============================================================================
