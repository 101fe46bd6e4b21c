-------------------------------- MODULE Shapes --------------------------------
(* Shape functions of the geometry mappings, evaluated exactly at points of    *)
(* the reference element whose coordinates are multiples of 1/12. All values   *)
(* are integers scaled by the denominator Den.                                 *)
(* A shape: [nv |-> number of corners (1,2,3,4), k |-> order (1 or 2),         *)
(*           n |-> node coordinates: corners, then (k=2) side midpoints]       *)
EXTENDS Integers, Sequences

Den(nv, k) == IF nv = 1 THEN 1
              ELSE IF nv \in {2, 3} THEN (IF k = 1 THEN 12 ELSE 144)
              ELSE (IF k = 1 THEN 144 ELSE 1728)

\* values of the shape functions at (a,b)/12
ShapeN(nv, k, a, b) ==
  LET l0 == 12 - a - b
  IN CASE nv = 1 -> <<1>>
       [] nv = 2 /\ k = 1 -> <<12 - a, a>>
       [] nv = 2 /\ k = 2 -> <<(12-a)*(12-2*a), a*(2*a-12), 4*a*(12-a)>>
       [] nv = 3 /\ k = 1 -> <<l0, a, b>>
       [] nv = 3 /\ k = 2 -> <<l0*(2*l0-12), a*(2*a-12), b*(2*b-12), 4*l0*a, 4*a*b, 4*b*l0>>
       [] nv = 4 /\ k = 1 -> <<(12-a)*(12-b), a*(12-b), a*b, (12-a)*b>>
       [] nv = 4 /\ k = 2 -> <<(12-a)*(12-b)*(12-2*a-2*b), a*(12-b)*(2*a-2*b-12),
                               a*b*(2*a+2*b-36), (12-a)*b*(2*b-2*a-12),
                               4*a*(12-a)*(12-b), 4*a*b*(12-b), 4*a*(12-a)*b, 4*(12-a)*b*(12-b)>>

\* derivatives in the first and second reference coordinate, scaled by Den
ShapeD1(nv, k, a, b) ==
  LET l0 == 12 - a - b
  IN CASE nv = 2 /\ k = 1 -> <<-12, 12>>
       [] nv = 2 /\ k = 2 -> <<12*(4*a-36), 12*(4*a-12), 12*(48-8*a)>>
       [] nv = 3 /\ k = 1 -> <<-12, 12, 0>>
       [] nv = 3 /\ k = 2 -> <<-12*(4*l0-12), 12*(4*a-12), 0, 48*(l0-a), 48*b, -48*b>>
       [] nv = 4 /\ k = 1 -> <<-12*(12-b), 12*(12-b), 12*b, -12*b>>
       [] nv = 4 /\ k = 2 -> <<12*(12-b)*(4*a+2*b-36), 12*(12-b)*(4*a-2*b-12), 12*b*(4*a+2*b-36),
                               12*b*(4*a-2*b-12), 48*(12-b)*(12-2*a), 48*b*(12-b), 48*b*(12-2*a), -48*b*(12-b)>>
ShapeD2(nv, k, a, b) ==
  LET l0 == 12 - a - b
  IN CASE nv = 3 /\ k = 1 -> <<-12, 0, 12>>
       [] nv = 3 /\ k = 2 -> <<-12*(4*l0-12), 0, 12*(4*b-12), -48*a, 48*a, 48*(l0-b)>>
       [] nv = 4 /\ k = 1 -> <<-12*(12-a), -12*a, 12*a, 12*(12-a)>>
       [] nv = 4 /\ k = 2 -> <<12*(12-a)*(4*b+2*a-36), 12*a*(4*b-2*a-12), 12*a*(4*b+2*a-36),
                               12*(12-a)*(4*b-2*a-12), -48*a*(12-a), 48*a*(12-2*b), 48*a*(12-a), 48*(12-a)*(12-2*b)>>

RECURSIVE DotAt(_, _, _, _)
DotAt(w, n, x, i) == IF i = 0 THEN 0 ELSE w[i] * n[i][x] + DotAt(w, n, x, i - 1)
Comb(w, n) == [x \in 1..Len(n[1]) |-> DotAt(w, n, x, Len(w))]

\* Den * (image of (a,b)/12)
MapD(s, a, b) == Comb(ShapeN(s.nv, s.k, a, b), s.n)
\* image, provided it has integer coordinates
MapZ(s, a, b) ==
  LET m == MapD(s, a, b)
      d == Den(s.nv, s.k)
  IN [x \in 1..Len(m) |-> IF m[x] % d = 0 THEN m[x] \div d ELSE 1999999999]

\* corners and side midpoints of the reference elements, multiples of 1/12
RefCorners(nv) == CASE nv = 1 -> <<<<0,0>>>> [] nv = 2 -> <<<<0,0>>, <<12,0>>>>
                    [] nv = 3 -> <<<<0,0>>, <<12,0>>, <<0,12>>>>
                    [] nv = 4 -> <<<<0,0>>, <<12,0>>, <<12,12>>, <<0,12>>>>
RefMids(nv) == CASE nv = 1 -> <<>> [] nv = 2 -> <<<<6,0>>>>
                 [] nv = 3 -> <<<<6,0>>, <<6,6>>, <<0,6>>>>
                 [] nv = 4 -> <<<<6,0>>, <<12,6>>, <<6,12>>, <<0,6>>>>
RefNodes(nv, k) == IF k = 1 THEN RefCorners(nv) ELSE RefCorners(nv) \o RefMids(nv)
===============================================================================
