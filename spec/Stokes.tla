------------------------------- MODULE Stokes -------------------------------
(* The interior penalty discontinuous Galerkin method for Stokes flow on planar *)
(* triangular meshes with integer corners: velocities are curls of continuous   *)
(* piecewise linear potentials, constant on each cell; an additional unknown    *)
(* per edge is the penalised jump of the tangential velocity.                   *)
(* Everything is stated in integers: velocities times twice the signed area,    *)
(* entries of the system times the length of the edge and a common multiple D   *)
(* of the doubled areas of the cells.                                           *)
EXTENDS Skeleton

RECURSIVE SumPairs(_)     \* sum of the second components
SumPairs(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumPairs(S \ {x})
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Rot(n) == <<0 - n[2], n[1]>>                    \* a quarter turn to the left
AbsA2(m, c) == Turn(m, c) * Area2(m, c)
NV(m) == Len(m.pts)
NE(m) == Len(m.edges)
\* curl of the hat function of corner j, times the signed doubled area
Curl(m, c, j) == Sub(Corner(m, c, Nxt(3, Nxt(3, j))), Corner(m, c, Nxt(3, j)))
BNodes(m) == UNION {SetOf(m.edges[e + 1]) : e \in Boundary(m)}

(* ---- normals and tangents --------------------------------------------------- *)
NormalsOK(m, E) ==
  /\ Len(E.nrm) = Len(m.cells) /\ Len(E.tan) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       /\ Len(E.nrm[c]) = 3 /\ Len(E.tan[c]) = 3
       /\ \A j \in 1..3 : UnitNormal(OutN(m, c, j), E.nrm[c][j]) /\ UnitNormal(Rot(OutN(m, c, j)), E.tan[c][j])

(* ---- the linear system -------------------------------------------------------- *)
\* jump of the tangential component of the curl of the hat function of node n over
\* edge e, times the length of the edge and D
Jump(m, D, e, n) ==
  SumPairs({<<x, Dot(Curl(m, x[1], j), Rot(OutN(m, x[1], x[2]))) * Turn(m, x[1]) * (D \div AbsA2(m, x[1]))>> :
             <<x, j>> \in {y \in SidesOf(m, e) \X (1..3) : m.cells[y[1][1]].v[y[2]] = n}})
\* value at X of the force f = f0 + F x, both components
Force(f, X) == <<f[1] + f[2] * X[1] + f[3] * X[2], f[4] + f[5] * X[1] + f[6] * X[2]>>
\* six times the integral of the force times the curl of the hat function of node n
Load6(m, f, n) ==
  SumPairs({<<c, LET g == [k \in 1..3 |-> Force(f, Corner(m, c, k))]
                   s == <<g[1][1] + g[2][1] + g[3][1], g[1][2] + g[2][2] + g[3][2]>>
                   j == CHOOSE k \in 1..3 : m.cells[c].v[k] = n
               IN Turn(m, c) * Dot(s, Curl(m, c, j))>> :
             c \in {x \in 1..Len(m.cells) : n \in SetOf(m.cells[x].v)}})
\* prescribed tangential component on edge e times its length
Tang(m, g, e) == LET x == CHOOSE y \in SidesOf(m, e) : TRUE IN Dot(g[e + 1], Rot(OutN(m, x[1], x[2])))
\* prescribed outward flux
Flux(m, g, e) == LET x == CHOOSE y \in SidesOf(m, e) : TRUE IN Dot(g[e + 1], OutN(m, x[1], x[2]))
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

\* Potential of the offset: zero in the interior, mean zero on the boundary, and its
\* differences are the prescribed fluxes (P: potential times the number of boundary nodes)
OffsetOK(m, g, P) ==
  LET b == BNodes(m) nb == Cardinality(b) IN
  /\ Len(P) = NV(m)
  /\ \A n \in 0..(NV(m) - 1) : n \notin b => P[n + 1] = 0
  /\ SumS(P) = 0
  /\ \A e \in Boundary(m) :
       LET x == CHOOSE y \in SidesOf(m, e) : TRUE
           a == m.cells[x[1]].v[x[2]] z == m.cells[x[1]].v[Nxt(3, x[2])]
       IN (P[z + 1] - P[a + 1]) * Turn(m, x[1]) = nb * Flux(m, g, e)

SystemOK(m, E) ==
  LET B == TLCEval(Boundary(m)) bn == TLCEval(BNodes(m)) nv == NV(m) ne == NE(m)
      J == TLCEval([e \in 1..ne |-> TLCEval([n \in 1..nv |-> Jump(m, E.D, e - 1, n - 1)])])
      nb == Cardinality(bn)
  IN
  /\ \A c \in 1..Len(m.cells) : E.D % AbsA2(m, c) = 0
  /\ E.nv = nv /\ E.ne = ne
  \* nodes with nodes
  /\ \A i \in 1..nv, j \in 1..nv : E.vv[i][j] = (IF i = j /\ (i - 1) \in bn THEN 1 ELSE 0)
  \* edges with nodes and conversely: jumps, without the fixed nodes
  /\ \A e \in 1..ne, n \in 1..nv :
       LET x == IF (n - 1) \in bn THEN 0 ELSE J[e][n] IN E.ev[e][n] = x /\ E.vb[n][e] = x
  \* edges with edges: minus the reciprocal of the penalty
  /\ \A e \in 1..ne, f \in 1..ne : E.ee[e][f] = (IF e = f THEN -1 ELSE 0)
  \* right-hand side
  /\ \A n \in 1..nv : E.rv[n] = (IF (n - 1) \in bn THEN 0 ELSE Load6(m, E.f, n - 1))
  /\ IF ~E.flow THEN \A e \in 1..ne : E.re[e] = (IF (e - 1) \in B THEN nb * E.D * Tang(m, E.g, e - 1) ELSE 0)
     ELSE /\ OffsetOK(m, E.g, E.ov)
          /\ \A e \in 1..ne :
               LET d == SumS([n \in 1..nv |-> J[e][n] * E.ov[n]]) IN
               /\ E.oe[e] = d
               /\ E.re[e] = (IF (e - 1) \in B THEN nb * E.D * Tang(m, E.g, e - 1) ELSE 0) - d

(* ---- velocities from solution vectors ----------------------------------------- *)
VelOK(m, E) ==
  /\ Len(E.vel) = Len(m.cells) /\ Len(E.mfv) = Len(m.cells) /\ Len(E.co) = NV(m)
  /\ \A n \in 1..NV(m) : E.co[n] = E.sol[E.nd[n] + 1]
  /\ \A c \in 1..Len(m.cells) :
       LET w(k) == E.sol[E.nd[m.cells[c].v[k] + 1] + 1]
           C == [k \in 1..3 |-> Curl(m, c, k)]
           v == <<w(1) * C[1][1] + w(2) * C[2][1] + w(3) * C[3][1], w(1) * C[1][2] + w(2) * C[2][2] + w(3) * C[3][2]>>
           t == Turn(m, c)
       IN /\ E.vel[c] = <<t * v[1], t * v[2]>>
          /\ Len(E.mfv[c]) = E.np
          /\ \A k \in 1..E.np : E.mfv[c][k] = <<t * v[1], t * v[2]>>
CurlOK(E) == /\ Len(E.grad) = Len(E.vel)
             /\ \A i \in 1..Len(E.grad) : E.vel[i] = <<E.grad[i][2], 0 - E.grad[i][1]>>

(* ---- norms ---------------------------------------------------------------------- *)
\* f[c][j]: value of the function at corner j of cell c, linear in between
L2Sq12(m, f) ==   \* twelve times the square of the L2 norm
  SumS([c \in 1..Len(m.cells) |->
          LET a == f[c][1] b == f[c][2] d == f[c][3] IN
          AbsA2(m, c) * (Dot(a, a) + Dot(b, b) + Dot(d, d) + Dot(a, b) + Dot(b, d) + Dot(a, d))])
At(m, f, x, n) == f[x[1]][CHOOSE k \in 1..3 : m.cells[x[1]].v[k] = n]
DgSq6(m, f, G) == \* six times the square of the DG norm; jumps over interior edges
  3 * SumS([c \in 1..Len(m.cells) |-> AbsA2(m, c) * (G[c][1] * G[c][1] + G[c][2] * G[c][2] + G[c][3] * G[c][3] + G[c][4] * G[c][4])])
  + 2 * SumS([e \in 1..NE(m) |->
          LET S == SidesOf(m, e - 1) IN
          IF Cardinality(S) # 2 THEN 0
          ELSE LET x == CHOOSE y \in S : TRUE
                   y == CHOOSE z \in S : z # x
                   p == Sub(At(m, f, x, m.edges[e][1]), At(m, f, y, m.edges[e][1]))
                   q == Sub(At(m, f, x, m.edges[e][2]), At(m, f, y, m.edges[e][2]))
               IN Dot(p, p) + Dot(p, q) + Dot(q, q)])
NormOK(m, E) == /\ E.l2 = L2Sq12(m, E.f)
                /\ E.dg = DgSq6(m, E.f, E.G)

(* ---- meshes of annuli -------------------------------------------------------------- *)
\* E: nr rings of na sectors, radii r0 < r1, center c (in units of 1 / E.S), positions in
\* these units, rounded
Ring(na, i, k) == na * i + (k % na)
AnnCells(nr, na) == [t \in 1..(2 * nr * na) |->
  LET q == (t - 1) \div 2 i == q \div na k == q % na IN
  IF t % 2 = 1 THEN <<Ring(na, i, k), Ring(na, i + 1, k), Ring(na, i, k + 1)>>
  ELSE <<Ring(na, i + 1, k), Ring(na, i + 1, k + 1), Ring(na, i, k + 1)>>]
AnnOK(m, E) ==
  LET nr == E.nr na == E.na
      p(i, k) == Sub(m.pts[Ring(na, i, k) + 1], E.c)
      cross(a, b) == a[1] * b[2] - a[2] * b[1]
      rad(i) == E.r0 + ((E.r1 - E.r0) * i) \div nr     \* divisible
      tol == 2 * E.r1 + 2
  IN
  /\ (E.r1 - E.r0) % nr = 0
  /\ Len(m.pts) = na * (nr + 1)
  /\ [t \in 1..Len(m.cells) |-> m.cells[t].v] = AnnCells(nr, na)
  /\ E.same /\ Coherent(m) /\ NoDupEdges(m) /\ Len(m.edges) = na * (3 * nr + 1)
  /\ \A i \in 0..nr :
       /\ \A k \in 0..(na - 1) :
            /\ Near(Dot(p(i, k), p(i, k)), rad(i) * rad(i), tol)          \* on the circle
            /\ Near(Dot(p(i, k), p(i, k + 1)), Dot(p(i, 0), p(i, 1)), tol)  \* equal angles
            /\ cross(p(i, k), p(i, k + 1)) > 0                              \* counter-clockwise
            /\ Near(cross(p(0, k), p(i, k)), 0, tol) /\ Dot(p(0, k), p(i, k)) > 0  \* on common rays
       /\ Near(p(i, 0)[1], rad(i), 1) /\ Near(p(i, 0)[2], 0, 1)             \* the first on the axis
       \* once around: a single passage of the half axis
       /\ Cardinality({k \in 0..(na - 1) : p(i, k)[2] < -1 /\ p(i, k + 1)[2] >= -1}) = 1
===============================================================================
