------------------------------ MODULE Structured ------------------------------
(* Tensor product meshes of a rectangle and of the torus.                       *)
EXTENDS MeshOps

Abs(x) == IF x < 0 THEN -x ELSE x
Vtx(nx, i, j) == i + j * (nx + 1)            \* lexicographic numbering
\* coordinates scaled by nx * ny
GridPt(nx, ny, b, i, j) == << (b[1]*nx + i*(b[3]-b[1])) * ny, (b[2]*ny + j*(b[4]-b[2])) * nx >>
GridPts(nx, ny, b) == [k \in 1..((nx+1)*(ny+1)) |-> GridPt(nx, ny, b, (k-1) % (nx+1), (k-1) \div (nx+1))]

\* twice the signed area of a polygon given by points
RECURSIVE Shoelace(_, _)
Shoelace(q, i) == IF i > Len(q) THEN 0
                  ELSE LET a == q[i]
                           b == q[(i % Len(q)) + 1]
                       IN a[1]*b[2] - a[2]*b[1] + Shoelace(q, i + 1)
Square(nx, i, j) == {Vtx(nx,i,j), Vtx(nx,i+1,j), Vtx(nx,i+1,j+1), Vtx(nx,i,j+1)}

\* index-space orientation: vertex numbers mapped to grid positions
Grid(nx, v) == <<v % (nx+1), v \div (nx+1)>>
Area2(nx, v) == Shoelace([i \in 1..Len(v) |-> Grid(nx, v[i])], 1)

Common(m) ==
  /\ Coherent(m) /\ NoDupEdges(m)
  /\ {SetOf(m.edges[i]) : i \in 1..Len(m.edges)} = CellSides([c \in 1..Len(m.cells) |-> m.cells[c].v])
  /\ Len(m.ec) = Len(m.edges) /\ Len(m.cc) = Len(m.cells)

PlanarGeo(m) ==
  /\ \A i \in 1..Len(m.edges) : m.ec[i] = << m.pts[m.edges[i][1]+1], m.pts[m.edges[i][2]+1] >>
  /\ \A c \in 1..Len(m.cells) : m.cc[c] = [k \in 1..Len(m.cells[c].v) |-> m.pts[m.cells[c].v[k]+1]]

QuadMesh(m, nx, ny, b) ==
  /\ m.pts = GridPts(nx, ny, b)
  /\ Len(m.cells) = nx*ny /\ Len(m.edges) = (nx+1)*ny + nx*(ny+1)
  /\ Common(m) /\ PlanarGeo(m)
  /\ \A c \in 1..Len(m.cells) : Len(m.cells[c].v) = 4 /\ Area2(nx, m.cells[c].v) = 2
  /\ {SetOf(m.cells[c].v) : c \in 1..Len(m.cells)} = {Square(nx, i, j) : <<i, j>> \in (0..(nx-1)) \X (0..(ny-1))}

TriaMesh(m, nx, ny, b) ==
  /\ m.pts = GridPts(nx, ny, b)
  /\ Len(m.cells) = 2*nx*ny /\ Len(m.edges) = nx*ny + (nx+1)*ny + nx*(ny+1)
  /\ Common(m) /\ PlanarGeo(m)
  /\ \A c \in 1..Len(m.cells) : Len(m.cells[c].v) = 3 /\ Area2(nx, m.cells[c].v) = 1
  /\ \A i \in 0..(nx-1), j \in 0..(ny-1) :
       LET ts == {SetOf(m.cells[c].v) : c \in {d \in 1..Len(m.cells) : SetOf(m.cells[d].v) \subseteq Square(nx, i, j)}}
       IN \* the two halves of the square
          ts = { Square(nx,i,j) \ {Vtx(nx,i+1,j)}, Square(nx,i,j) \ {Vtx(nx,i,j+1)} }

\* torus: node (i,j), i < nx, j < ny
TV(nx, ny, i, j) == (i % nx) + (j % ny) * nx
\* 1000 * cos(360*k/n degrees), for the n where it is tabulated; 12 and 8 divisions
Cos12 == <<1000, 866, 500, 0, -500, -866, -1000, -866, -500, 0, 500, 866>>
Cos8 == <<1000, 707, 0, -707, -1000, -707, 0, 707>>
CosN(n, k) == IF 12 % n = 0 THEN Cos12[((k * (12 \div n)) % 12) + 1] ELSE Cos8[((k * (8 \div n)) % 8) + 1]
SinN(n, k) == IF n % 4 = 0 THEN CosN(n, k + (3*n) \div 4)
              ELSE Cos12[((k * (12 \div n) + 9) % 12) + 1]
Tab(n) == n > 0 /\ (12 % n = 0 \/ 8 % n = 0)
TorusPt(nx, ny, xs, ys, i, j) ==   \* 10^6 * 2 pi * coordinates
  << (ys*1000 + xs*CosN(nx, i)) * CosN(ny, j),
     (ys*1000 + xs*CosN(nx, i)) * SinN(ny, j),
     1000 * xs * SinN(nx, i) >>
\* observed: 10^3 * 2 pi * coordinate
TorusNear(o, e, xs, ys) == \A k \in 1..3 : Abs(1000 * o[k] - e[k]) <= 1200 * (xs + ys) + 1000
NearSeq(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Abs(p[k] - q[k]) <= 1
TorusMesh(m, nx, ny, b) ==
  LET xs == b[3] - b[1]
      ys == b[4] - b[2]
  IN /\ Len(m.pts) = nx*ny /\ Len(m.edges) = 2*nx*ny /\ Len(m.cells) = nx*ny
     /\ Common(m)
     /\ {m.cells[c].v : c \in 1..Len(m.cells)} \subseteq
          UNION {LET q == << TV(nx,ny,i,j), TV(nx,ny,i+1,j), TV(nx,ny,i+1,j+1), TV(nx,ny,i,j+1) >>
                 IN {[k \in 1..4 |-> q[((k-1+r) % 4) + 1]] : r \in 0..3} : <<i,j>> \in (0..(nx-1)) \X (0..(ny-1))}
     /\ {SetOf(m.cells[c].v) : c \in 1..Len(m.cells)} =
          {{TV(nx,ny,i,j), TV(nx,ny,i+1,j), TV(nx,ny,i+1,j+1), TV(nx,ny,i,j+1)} : <<i,j>> \in (0..(nx-1)) \X (0..(ny-1))}
     /\ Cardinality({SetOf(m.cells[c].v) : c \in 1..Len(m.cells)}) = nx*ny
     /\ (Tab(nx) /\ Tab(ny)) =>
          \A i \in 0..(nx-1), j \in 0..(ny-1) : TorusNear(m.pts[TV(nx,ny,i,j)+1], TorusPt(nx, ny, xs, ys, i, j), xs, ys)
     /\ \A i \in 1..Len(m.edges) : \A k \in 1..2 : NearSeq(m.ec[i][k], m.pts[m.edges[i][k]+1])
     /\ \A c \in 1..Len(m.cells) : \A k \in 1..4 : NearSeq(m.cc[c][k], m.pts[m.cells[c].v[k]+1])

EmptyGrid(nx, ny, b) == nx = 0 \/ ny = 0 \/ b[3] <= b[1] \/ b[4] <= b[2]
BuilderOK(e) ==
  IF EmptyGrid(e.nx, e.ny, e.box) THEN e.null
  ELSE /\ ~e.null
       /\ CASE e.kind = "quad" -> QuadMesh(e, e.nx, e.ny, e.box)
            [] e.kind = "tria" -> TriaMesh(e, e.nx, e.ny, e.box)
            [] e.kind = "torus" -> TorusMesh(e, e.nx, e.ny, e.box)
===============================================================================
