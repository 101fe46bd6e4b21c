------------------------------ MODULE LagrangeFE ------------------------------
(* Lagrangian reference elements of degree 1, 2, 3. Points have coordinates in  *)
(* twelfths, so that all nodes i/p are lattice points; values are integers with *)
(* the scale D(p) (segment, triangle) or D(p)^2 (quadrilateral).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Num_(_, _, _)
Num_(h, n, a) == IF n = 0 THEN 1 ELSE (a - (n - 1) * h) * Num_(h, n - 1, a)
\* the polynomial of degree n which vanishes at 0, 1/p, .., (n-1)/p and is 1 at n/p is Num / Den
Num(p, n, a) == Num_(12 \div p, n, a)
Den(p, n) == (CASE p = 1 -> <<1, 12>> [] p = 2 -> <<1, 6, 72>> [] p = 3 -> <<1, 4, 32, 384>>)[n + 1]
D(p) == Den(p, p)
Scale(ref, p) == IF ref = "quad" THEN D(p) * D(p) ELSE D(p)

SegFn(p, i, a) == Num(p, i, a) * Num(p, p - i, 12 - a) * (D(p) \div (Den(p, i) * Den(p, p - i)))
TriFn(p, i, j, a, b) ==
  LET k == p - i - j
  IN Num(p, i, a) * Num(p, j, b) * Num(p, k, 12 - a - b) * (D(p) \div (Den(p, i) * Den(p, j) * Den(p, k)))
QuadFn(p, i, j, a, b) == SegFn(p, i, a) * SegFn(p, j, b)

\* shape function which belongs to the node nd, at the point x
Phi(ref, p, nd, x) ==
  CASE ref = "seg"  -> SegFn(p, (nd[1] * p) \div 12, x[1])
    [] ref = "tria" -> TriFn(p, (nd[1] * p) \div 12, (nd[2] * p) \div 12, x[1], x[2])
    [] ref = "quad" -> QuadFn(p, (nd[1] * p) \div 12, (nd[2] * p) \div 12, x[1], x[2])

\* derivative in direction k: the five point formula is exact up to degree 4
Shift(x, k, s) == [x EXCEPT ![k] = @ + s]
DPhi(ref, p, nd, x, k) == Phi(ref, p, nd, Shift(x, k, -2)) - 8 * Phi(ref, p, nd, Shift(x, k, -1))
                          + 8 * Phi(ref, p, nd, Shift(x, k, 1)) - Phi(ref, p, nd, Shift(x, k, 2))

Refs == {"seg", "tria", "quad"}
Dim(ref) == IF ref = "seg" THEN 1 ELSE 2
Verts(ref) == CASE ref = "seg" -> <<<<0>>, <<12>>>>
                [] ref = "tria" -> <<<<0, 0>>, <<12, 0>>, <<0, 12>>>>
                [] ref = "quad" -> <<<<0, 0>>, <<12, 0>>, <<12, 12>>, <<0, 12>>>>
NSides(ref) == CASE ref = "seg" -> 0 [] ref = "tria" -> 3 [] ref = "quad" -> 4
\* point at s twelfths along side k
OnSide(ref, k, s) ==
  LET v == Verts(ref) u == v[k] w == v[(k % Len(v)) + 1]
  IN [c \in 1..Len(u) |-> u[c] + ((w[c] - u[c]) * s) \div 12]
Inside(ref) == CASE ref = "seg" -> {<<a>> : a \in 0..12}
                 [] ref = "tria" -> {x \in (0..12) \X (0..12) : x[1] + x[2] <= 12}
                 [] ref = "quad" -> (0..12) \X (0..12)
AllNodes(ref, p) == {x \in Inside(ref) : \A c \in 1..Len(x) : (x[c] * p) % 12 = 0}
Interior(ref, x) == CASE ref = "seg" -> x[1] \in 1..11
                      [] ref = "tria" -> x[1] > 0 /\ x[2] > 0 /\ x[1] + x[2] < 12
                      [] ref = "quad" -> x[1] \in 1..11 /\ x[2] \in 1..11
InnerNodes(ref, p) == {x \in AllNodes(ref, p) : Interior(ref, x)}
\* nodes in the order vertices, sides in the direction of the side
RECURSIVE SideNodes(_, _, _)
SideNodes(ref, p, k) == IF k > NSides(ref) THEN <<>>
                        ELSE [m \in 1..(p - 1) |-> OnSide(ref, k, (12 * m) \div p)] \o SideNodes(ref, p, k + 1)
OuterNodes(ref, p) == Verts(ref) \o SideNodes(ref, p, 1)

Sum(s, f(_)) == LET RECURSIVE G(_)
                    G(t) == IF t = {} THEN 0 ELSE LET x == CHOOSE y \in t : TRUE IN f(x) + G(t \ {x})
                IN G(s)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

(* ---- what P19 demands of the logged element ------------------------------------------------- *)
NodesOK(ref, p, nodes) ==
  LET out == OuterNodes(ref, p) no == Len(out)
  IN /\ Len(nodes) = Cardinality(AllNodes(ref, p))
     /\ SubSeq(nodes, 1, no) = out
     /\ {nodes[i] : i \in (no + 1)..Len(nodes)} = InnerNodes(ref, p)

LagrOK(E) ==
  LET ref == E.ref p == E.p n == Cardinality(AllNodes(ref, p)) inner == Cardinality(InnerNodes(ref, p))
      d == Dim(ref)
  IN /\ E.re = ref /\ E.dim = d /\ E.deg = p
     /\ E.n = n /\ E.nn = n /\ Len(E.nodes) = n
     /\ E.nc = IF d = 1 THEN <<inner, 1>> ELSE <<inner, p - 1, 1>>
     /\ E.ns = IF d = 1 THEN <<<<inner>>, <<1, 1>>>>
               ELSE <<<<inner>>, [k \in 1..NSides(ref) |-> p - 1], [k \in 1..NSides(ref) |-> 1]>>
     /\ NodesOK(ref, p, E.nodes)
     /\ Len(E.v) = n /\ Len(E.gx) = n /\ Len(E.gy) = IF d = 2 THEN n ELSE 0
     /\ {E.pts[q] : q \in 1..Len(E.pts)} = Inside(ref)
     /\ \A i \in 1..n :
          /\ Len(E.v[i]) = Len(E.pts) /\ Len(E.gx[i]) = Len(E.pts)
          /\ \A q \in 1..Len(E.pts) :
               /\ E.v[i][q] = Phi(ref, p, E.nodes[i], E.pts[q])
               /\ E.gx[i][q] = DPhi(ref, p, E.nodes[i], E.pts[q], 1)
               /\ d = 2 => E.gy[i][q] = DPhi(ref, p, E.nodes[i], E.pts[q], 2)
     /\ E.batch /\ E.pre
     /\ E.out = E.in
PointOK(E) == /\ E.re = "point" /\ E.deg = E.p /\ E.n = 1 /\ E.n0 = 1 /\ E.nn = 1
              /\ E.v = <<<<1, 1, 1>>>> /\ E.nr = 0 /\ E.nk = 1 /\ E.d = <<<<5>>>>
===============================================================================
