------------------------------- MODULE VtkFile -------------------------------
(* What VtkWriter writes: the mesh (or its skeleton) as cells of a given order *)
(* whose nodes are the images of the equidistant Lagrange points, in the order *)
(* in which the VTK library expects them, and data attached to points, cells   *)
(* or to nothing.                                                              *)
(* Points of the reference element are pairs of multiples of 1/order,          *)
(* coordinates are integers, scaled by S for the mesh and by S * order^3 for   *)
(* the file.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

--------------------------------------------------------------------------------
(* Lagrange points in the order of VTK                                          *)
SegEdge(n, p, q) ==  \* points strictly between p and q, n steps
  [i \in 1..n-1 |-> << p[1] + ((q[1] - p[1]) \div n) * i, p[2] + ((q[2] - p[2]) \div n) * i >>]
SegPts(n) == << <<0,0>>, <<n,0>> >> \o SegEdge(n, <<0,0>>, <<n,0>>)
\* corners, sides, then recursively the triangle formed by the interior points
RECURSIVE TriPts(_)
TriPts(n) ==
  IF n = 0 THEN << <<0,0>> >>
  ELSE << <<0,0>>, <<n,0>>, <<0,n>> >>
       \o SegEdge(n, <<0,0>>, <<n,0>>) \o SegEdge(n, <<n,0>>, <<0,n>>) \o SegEdge(n, <<0,n>>, <<0,0>>)
       \o (IF n < 3 THEN <<>> ELSE LET in == TriPts(n - 3) IN [i \in 1..Len(in) |-> <<in[i][1] + 1, in[i][2] + 1>>])
\* corners, sides (the last two against the orientation of the boundary), then
\* the interior points row by row
QuadPts(n) ==
  << <<0,0>>, <<n,0>>, <<n,n>>, <<0,n>> >>
  \o SegEdge(n, <<0,0>>, <<n,0>>) \o SegEdge(n, <<n,0>>, <<n,n>>)
  \o SegEdge(n, <<0,n>>, <<n,n>>) \o SegEdge(n, <<0,0>>, <<0,n>>)
  \o [k \in 1..(n-1)*(n-1) |-> << ((k-1) % (n-1)) + 1, ((k-1) \div (n-1)) + 1 >>]
Points(nv, n) == CASE nv = 2 -> SegPts(n) [] nv = 3 -> TriPts(n) [] nv = 4 -> QuadPts(n)
\* positions (in Points) of the points inside of side s, and inside of the cell
SidePos(nv, n, s) == { nv + (s - 1) * (n - 1) + i : i \in 1..n-1 }
Inner(nv, n) == CASE nv = 2 -> n - 1 [] nv = 3 -> ((n-1) * (n-2)) \div 2 [] nv = 4 -> (n-1) * (n-1)
Type(nv, n) == IF n = 1 THEN (CASE nv = 2 -> 3 [] nv = 3 -> 5 [] nv = 4 -> 9)
               ELSE (CASE nv = 2 -> 68 [] nv = 3 -> 69 [] nv = 4 -> 70)

--------------------------------------------------------------------------------
(* Geometry: shape functions at (a,b)/n, scaled by n^3                          *)
Shape(nv, k, n, a, b) ==
  LET l0 == n - a - b
  IN CASE nv = 2 /\ k = 1 -> <<(n-a)*n*n, a*n*n>>
       [] nv = 2 /\ k = 2 -> <<(n-a)*(n-2*a)*n, a*(2*a-n)*n, 4*a*(n-a)*n>>
       [] nv = 3 /\ k = 1 -> <<l0*n*n, a*n*n, b*n*n>>
       [] nv = 3 /\ k = 2 -> <<l0*(2*l0-n)*n, a*(2*a-n)*n, b*(2*b-n)*n, 4*l0*a*n, 4*a*b*n, 4*b*l0*n>>
       [] nv = 4 /\ k = 1 -> <<(n-a)*(n-b)*n, a*(n-b)*n, a*b*n, (n-a)*b*n>>
       [] nv = 4 /\ k = 2 -> <<(n-a)*(n-b)*(n-2*a-2*b), a*(n-b)*(2*a-2*b-n), a*b*(2*a+2*b-3*n), (n-a)*b*(2*b-2*a-n),
                               4*a*(n-a)*(n-b), 4*a*b*(n-b), 4*a*(n-a)*b, 4*(n-a)*b*(n-b)>>
RECURSIVE Sum(_, _, _, _)
Sum(w, x, c, i) == IF i = 0 THEN 0 ELSE w[i] * x[i][c] + Sum(w, x, c, i - 1)
\* a geometry g = [nv, k, n |-> node coordinates]; three coordinates
Image(g, n, p) ==
  LET w == Shape(g.nv, g.k, n, p[1], p[2])
  IN [c \in 1..3 |-> IF c > Len(g.n[1]) THEN 0 ELSE Sum(w, g.n, c, Len(w))]
\* image of the barycentre of the reference element, scaled by 72
Barycentre(g) == LET x == IF g.nv = 3 THEN Image(g, 3, <<1,1>>) ELSE Image(g, 2, IF g.nv = 2 THEN <<1,0>> ELSE <<1,1>>)
                 IN [c \in 1..3 |-> IF g.nv = 3 THEN (x[c] * 8) \div 3 ELSE x[c] * 9]

--------------------------------------------------------------------------------
(* The grid.  m: [pts, edges, cells, ge, gc], indices start from 0.             *)
Geo(m, codim) == IF codim = 0 THEN m.gc ELSE m.ge
Corners(m, codim, i) == IF codim = 0 THEN m.cells[i].v ELSE m.edges[i]
NumPoints(m, codim, n) ==
  Len(m.pts) + (n - 1) * Len(m.edges)
  + (IF codim = 1 THEN 0
     ELSE LET t == Cardinality({i \in DOMAIN m.cells : Len(m.cells[i].v) = 3})
          IN t * Inner(3, n) + (Len(m.cells) - t) * Inner(4, n))
\* points of the file which belong to the inside of an edge
EdgeOf(m, F, c, s, n) == { F.cells[c][j] : j \in SidePos(Len(m.cells[c].v), n, s) }
GridOK(m, codim, n, F) ==
  LET G == TLCEval(Geo(m, codim))
      cnt == NumPoints(m, codim, n)
      used == UNION { {F.cells[i][j] : j \in DOMAIN F.cells[i]} : i \in DOMAIN F.cells }
      n3 == n * n * n
  IN /\ Len(F.pts) = cnt /\ Len(F.cells) = Len(G) /\ Len(F.types) = Len(G)
     \* the nodes of the mesh come first
     /\ \A i \in DOMAIN m.pts : \A c \in 1..3 : F.pts[i][c] = IF c > Len(m.pts[i]) THEN 0 ELSE n3 * m.pts[i][c]
     /\ \A i \in DOMAIN G :
          LET R == Points(G[i].nv, n)
              K == F.cells[i]
          IN /\ F.types[i] = Type(G[i].nv, n)
             /\ Len(K) = Len(R)
             /\ \A j \in DOMAIN R : K[j] \in 0..cnt-1 /\ F.pts[K[j] + 1] = Image(G[i], n, R[j])
             /\ Cardinality({K[j] : j \in DOMAIN K}) = Len(K)
             /\ \A j \in 1..G[i].nv : K[j] = Corners(m, codim, i)[j]
             /\ \A j \in G[i].nv+1..Len(K) : K[j] >= Len(m.pts)
     \* every point but nodes of the mesh belongs to a cell
     /\ (Len(m.pts)..cnt-1) \ used = {}
     \* cells share exactly the points on their common sides
     /\ n > 1 /\ codim = 0 =>
          \A c, d \in DOMAIN G : \A s \in 1..G[c].nv : \A t \in 1..G[d].nv :
             LET A == EdgeOf(m, F, c, s, n)
                 B == EdgeOf(m, F, d, t, n)
             IN IF m.cells[c].e[s] = m.cells[d].e[t] THEN A = B ELSE A \cap B = {}

--------------------------------------------------------------------------------
(* Data.  A set of data: [name, type, kind ("S"/"V"), tab, v |-> strings]       *)
TypeName(t) ==
  CASE t = "char" -> "char" [] t = "uchar" -> "unsigned_char" [] t = "short" -> "short" [] t = "ushort" -> "unsigned_short"
    [] t = "int" -> "int" [] t = "uint" -> "unsigned_int" [] t = "long" -> "long" [] t = "ulong" -> "unsigned_long"
    [] t \in {"float", "v2f", "v3f", "vXf"} -> "float" [] t \in {"double", "v2d", "v3d", "vXd"} -> "double"
IsVec(t) == t \in {"v2f", "v2d", "v3f", "v3d", "vXf", "vXd"}
\* three components of every vector
Pad(v, rows, i) == [c \in 1..3 |-> IF c <= rows THEN v[(i-1) * rows + c] ELSE "0"]
RECURSIVE Flat(_, _)
Flat(f, k) == IF k = 0 THEN <<>> ELSE Flat(f, k - 1) \o f[k]
\* data set given by its values for all points (cells)
FromSet(e) ==
  LET n == Len(e.mask)
      ur == Len(e.undef)
  IN [name |-> e.name, type |-> TypeName(e.type), kind |-> IF IsVec(e.type) THEN "V" ELSE "S",
      tab |-> IF IsVec(e.type) THEN "" ELSE "default",
      v |-> IF IsVec(e.type) THEN Flat([i \in 1..n |-> IF e.mask[i] = 1 THEN Pad(e.v, e.rows, i) ELSE Pad(e.undef, ur, 1)], n)
            ELSE [i \in 1..n |-> IF e.mask[i] = 1 THEN e.v[i] ELSE e.undef[1]]]
\* data set obtained by sampling x -> a + b x1 + c x2 + d x3 at X
Abs(x) == IF x < 0 THEN -x ELSE x
Lin(k, X, c) == k[1] + c + (k[2] + c) * X[1] + (k[3] + c) * X[2] + (k[4] + c) * X[3]
Value(t, k, X) ==
  LET x == Lin(k, X, 0)
  IN CASE t \in {"float", "double", "int"} -> ToString(x) [] t = "uint" -> ToString(Abs(x))
       [] t = "char" -> ToString(Abs(x) % 97) [] t = "uchar" -> ToString(Abs(x) % 251)
FromFunction(e, dw, X) ==
  LET k == e.k  IN
  [name |-> e.name, type |-> TypeName(e.type), kind |-> IF IsVec(e.type) THEN "V" ELSE "S",
   tab |-> IF IsVec(e.type) THEN "" ELSE "default",
   v |-> IF IsVec(e.type)
         THEN Flat([i \in 1..Len(X) |-> [c \in 1..3 |-> IF c <= e.rows THEN ToString(Lin(k, X[i], c - 1)) ELSE "0"]], Len(X))
         ELSE [i \in 1..Len(X) |-> Value(e.type, k, X[i])]]
\* the same sets of data, in any order (names are unique)
SameSets(a, b) == Len(a) = Len(b) /\ {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}

--------------------------------------------------------------------------------
(* The writer: [codim, order, bin, fd, pd, cd]                                  *)
Blank == " "
HasBlank(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = Blank
NameOK(list, name) == (\A i \in DOMAIN list : list[i].name # name) /\ ~HasBlank(name)
NewWriter(codim, order) == [codim |-> codim, order |-> order, bin |-> FALSE, fd |-> <<>>, pd |-> <<>>, cd |-> <<>>]
AddGlobal(w, e) == [w EXCEPT !.fd = Append(@, [name |-> e.name, type |-> TypeName(e.type), v |-> e.v])]
AddSet(w, e) == IF e.kind = "p" THEN [w EXCEPT !.pd = Append(@, [src |-> "set", name |-> e.name, e |-> e])]
                ELSE [w EXCEPT !.cd = Append(@, [src |-> "set", name |-> e.name, e |-> e])]
AddFunction(w, e) == IF e.kind = "p" THEN [w EXCEPT !.pd = Append(@, [src |-> "fct", name |-> e.name, e |-> e])]
                     ELSE [w EXCEPT !.cd = Append(@, [src |-> "fct", name |-> e.name, e |-> e])]

\* the data of the file of a writer for mesh m. Functions are sampled at the
\* points of the file, whose coordinates are checked by GridOK
DataOK(m, w, F) ==
  LET X == F.pts
      G == Geo(m, w.codim)
      C == [i \in DOMAIN G |-> Barycentre(G[i])]
      dw == Len(m.pts[1])
      pd == [i \in DOMAIN w.pd |-> IF w.pd[i].src = "set" THEN FromSet(w.pd[i].e) ELSE FromFunction(w.pd[i].e, dw, X)]
      cd == [i \in DOMAIN w.cd |-> IF w.cd[i].src = "set" THEN FromSet(w.cd[i].e) ELSE FromFunction(w.cd[i].e, dw, C)]
  IN /\ SameSets(F.fd, w.fd) /\ SameSets(F.pd, pd) /\ SameSets(F.cd, cd)
     /\ F.np = Len(F.pts) /\ F.nc = Len(F.cells)
FileOK(m, w, F) == F.ok /\ F.binary = w.bin /\ GridOK(m, w.codim, w.order, F) /\ DataOK(m, w, F)

--------------------------------------------------------------------------------
(* WriteToFile(VtkFile): everything is written as given, unless it is malformed *)
RawValid(e) ==
  /\ ~e.nl /\ e.hlen <= 256
  /\ Len(e.cells) = Len(e.types)
  /\ \A i \in DOMAIN e.pd : Len(e.pd[i].v) = Len(e.pts) * (IF IsVec(e.pd[i].type) THEN 3 ELSE 1)
  /\ \A i \in DOMAIN e.cd : Len(e.cd[i].v) = Len(e.cells) * (IF IsVec(e.cd[i].type) THEN 3 ELSE 1)
RawSet(d) == [name |-> d.name, type |-> TypeName(d.type), kind |-> IF IsVec(d.type) THEN "V" ELSE "S",
              tab |-> IF IsVec(d.type) THEN "" ELSE d.tab, v |-> d.v]
RawOK(e, F) ==
  /\ e.ok = RawValid(e)
  /\ e.ok => /\ F.ok /\ F.title = e.title /\ F.binary = e.binary
             /\ F.pts = e.pts /\ F.cells = e.cells /\ F.types = e.types
             /\ F.np = Len(e.pts) /\ F.nc = Len(e.cells)
             /\ SameSets(F.fd, [i \in DOMAIN e.fd |-> [name |-> e.fd[i].name, type |-> TypeName(e.fd[i].type), v |-> e.fd[i].v]])
             /\ SameSets(F.pd, [i \in DOMAIN e.pd |-> RawSet(e.pd[i])])
             /\ SameSets(F.cd, [i \in DOMAIN e.cd |-> RawSet(e.cd[i])])
===============================================================================
