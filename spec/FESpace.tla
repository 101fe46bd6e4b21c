-------------------------------- MODULE FESpace --------------------------------
(* Finite element functions on a hybrid mesh.                                   *)
(* A space assigns to every node one shape function, to every edge deg-1 and to *)
(* every cell the interior ones of its degree; a function is what its values on *)
(* cells, along sides of cells, on edges and at nodes say, and these must agree.*)
EXTENDS MeshOps, Rational, TLC
L == INSTANCE LagrangeFE

SumF(f, S) == LET RECURSIVE G(_)
                  G(t) == IF t = {} THEN 0 ELSE LET x == CHOOSE y \in t : TRUE IN f[x] + G(t \ {x})
              IN G(S)
SumSeq(s) == SumF(s, 1..Len(s))

(* ---- dimension of the space -------------------------------------------------------------- *)
Inner(nv, d) == IF nv = 3 THEN ((d - 1) * (d - 2)) \div 2 ELSE (d - 1) * (d - 1)
\* requested degrees of cells and of edges
CellDeg(m, E) == IF E.k = "hierf" THEN E.rc ELSE [c \in 1..Len(m.cells) |-> E.p]
EdgeDeg(m, E) == IF E.k = "hierf" THEN E.re ELSE [c \in 1..Len(m.edges) |-> E.p]

SpaceOK(m, E) ==
  LET cd == CellDeg(m, E) ed == EdgeDeg(m, E)
      nc == Len(m.cells) ne == Len(m.edges) np == Len(m.pts)
      ncell(c) == LET r == m.cells[c] IN Len(r.v) + SumSeq([j \in 1..Len(r.e) |-> ed[r.e[j] + 1] - 1]) + Inner(Len(r.v), cd[c])
  IN /\ E.mesh
     /\ E.n = np + SumSeq([e \in 1..ne |-> ed[e] - 1]) + SumSeq([c \in 1..nc |-> Inner(Len(m.cells[c].v), cd[c])])
     /\ Len(E.g[1]) = nc /\ Len(E.g[2]) = ne /\ Len(E.g[3]) = np
     /\ \A c \in 1..nc : E.nsf[1][c] = ncell(c) /\ Len(E.g[1][c]) = ncell(c)
     /\ \A e \in 1..ne : E.nsf[2][e] = ed[e] + 1 /\ Len(E.g[2][e]) = ed[e] + 1 /\ E.deg[2][e] = ed[e]
     /\ \A p \in 1..np : E.nsf[3][p] = 1 /\ Len(E.g[3][p]) = 1
     \* every shape function belongs to some cell, edge or node; shared ones are shared
     /\ UNION {SetOf(E.g[1][c]) : c \in 1..nc} \cup UNION {SetOf(E.g[2][e]) : e \in 1..ne}
          \cup UNION {SetOf(E.g[3][p]) : p \in 1..np} = 0..(E.n - 1)
     /\ \A c \in 1..nc : LET r == m.cells[c] IN
          \A j \in 1..Len(r.v) : /\ SetOf(E.g[2][r.e[j] + 1]) \subseteq SetOf(E.g[1][c])
                                 /\ SetOf(E.g[3][r.v[j] + 1]) \subseteq SetOf(E.g[1][c])
     /\ E.k # "hierf" => \A c \in 1..nc : E.deg[1][c] = E.p

(* ---- continuity ----------------------------------------------------------------------------- *)
Tol == 3
ContOK(m, E) ==
  /\ E.mesh /\ E.space
  /\ Len(E.side) = Len(m.cells) /\ Len(E.edge) = Len(m.edges) /\ Len(E.node) = Len(m.pts)
  /\ \A c \in 1..Len(m.cells) : LET r == m.cells[c] IN
       \A k \in 1..Len(r.v) : \A s \in 0..E.m :
         Near(E.side[c][k][s + 1], E.edge[r.e[k] + 1][(IF r.o[k] = 1 THEN s ELSE E.m - s) + 1], Tol)
  /\ \A e \in 1..Len(m.edges) :
       /\ Near(E.edge[e][1], E.node[m.edges[e][1] + 1], Tol)
       /\ Near(E.edge[e][E.m + 1], E.node[m.edges[e][2] + 1], Tol)

(* ---- values of Lagrangian functions: sum of coefficient times shape function ----------------- *)
\* value * 100000, rounded; 12 % E.m = 0
LagrOK(m, sp, E) ==
  \A c \in 1..Len(m.cells) :
    LET rf == IF Len(m.cells[c].v) = 3 THEN "tria" ELSE "quad"
        nodes == IF rf = "tria" THEN sp.nt ELSE sp.nq
        g == sp.g[1][c]
        sc == L!Scale(rf, sp.p)
    IN \A q \in 1..Len(E.cell[c].p) :
         LET x == [k \in 1..2 |-> E.cell[c].p[q][k] * (12 \div E.m)]
             v == SumSeq([i \in 1..Len(g) |-> E.c[g[i] + 1] * L!Phi(rf, sp.p, nodes[i], x)])
             d == IF v >= 0 THEN Decimal(v, sc, 5) ELSE -Decimal(-v, sc, 5)
         IN Near(E.cell[c].v[q], d, Tol)

(* ---- polynomials ------------------------------------------------------------------------------ *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* p: sequence of <<coefficient, i, j>>; x scaled by b; result scaled by b^d
PEval(p, d, b, x) == SumSeq([t \in 1..Len(p) |-> p[t][1] * Pow(x[1], p[t][2]) * Pow(x[2], p[t][3]) * Pow(b, d - p[t][2] - p[t][3])])
\* gradient, scaled by b^(d-1)
PGrad(p, d, b, x) ==
  IF d = 0 THEN <<0, 0>>
  ELSE <<SumSeq([t \in 1..Len(p) |-> IF p[t][2] = 0 THEN 0 ELSE
            p[t][1] * p[t][2] * Pow(x[1], p[t][2] - 1) * Pow(x[2], p[t][3]) * Pow(b, d - p[t][2] - p[t][3])]),
         SumSeq([t \in 1..Len(p) |-> IF p[t][3] = 0 THEN 0 ELSE
            p[t][1] * p[t][3] * Pow(x[1], p[t][2]) * Pow(x[2], p[t][3] - 1) * Pow(b, d - p[t][2] - p[t][3])])>>
ProjOK(m, sp, E) ==
  /\ E.n = sp.n
  /\ \A k \in 1..3 :
       /\ Len(E.ent[k]) = (CASE k = 1 -> Len(m.cells) [] k = 2 -> Len(m.edges) [] k = 3 -> Len(m.pts))
       /\ \A i \in 1..Len(E.ent[k]) :
          LET R == E.ent[k][i] IN
          /\ Len(R.v) = Len(R.x)
          /\ \A q \in 1..Len(R.x) : R.v[q] = PEval(E.p, E.d, E.b, R.x[q])
          /\ k = 1 => \A q \in 1..Len(R.x) : R.g[q] = PGrad(E.p, E.d, E.b, R.x[q])
          /\ k = 2 /\ E.st => \A q \in 1..Len(R.x) :
               LET g == PGrad(E.p, E.d, E.b, R.x[q])
                   u == m.pts[m.edges[i][1] + 1] w == m.pts[m.edges[i][2] + 1]
                   t == <<w[1] - u[1], w[2] - u[2]>>
                   s == g[1] * t[1] + g[2] * t[2]
               IN R.g[q] = <<s * t[1], s * t[2]>>
\* projection restricted to some cells: one there, coefficients not touched elsewhere
ProjSelOK(m, sp, E) ==
  LET touched == UNION {SetOf(sp.g[1][c]) : c \in {d \in 1..Len(m.cells) : E.sel[d] # 0}}
  IN /\ \A c \in 1..Len(m.cells) : E.sel[c] # 0 => E.one[c] = 1
     /\ 0..(sp.n - 1) \ touched \subseteq SetOf(E.zero)

(* ---- P23: integrals --------------------------------------------------------------------------- *)
\* 24 * integral of x^i y^j over the polygon with the vertices w (degree at most 2)
Cross(u, w) == u[1] * w[2] - u[2] * w[1]
Mom(w, i, j) ==
  LET n == Len(w)
      at(k) == w[((k - 1) % n) + 1]
      term(k) == LET u == at(k) v == at(k + 1) c == Cross(u, v) IN
        CASE i + j = 0 -> 12 * c
          [] i = 1 /\ j = 0 -> 4 * (u[1] + v[1]) * c
          [] i = 0 /\ j = 1 -> 4 * (u[2] + v[2]) * c
          [] i = 2 /\ j = 0 -> 2 * (u[1] * u[1] + u[1] * v[1] + v[1] * v[1]) * c
          [] i = 0 /\ j = 2 -> 2 * (u[2] * u[2] + u[2] * v[2] + v[2] * v[2]) * c
          [] OTHER -> (u[1] * v[2] + 2 * u[1] * u[2] + 2 * v[1] * v[2] + v[1] * u[2]) * c
  IN SumSeq([k \in 1..n |-> term(k)])
CellInt(m, c, p) ==
  LET w == [k \in 1..Len(m.cells[c].v) |-> m.pts[m.cells[c].v[k] + 1]]
      sg == IF Mom(w, 0, 0) < 0 THEN -1 ELSE 1
  IN sg * SumSeq([t \in 1..Len(p) |-> p[t][1] * Mom(w, p[t][2], p[t][3])])
\* floor(sqrt(n))
RECURSIVE Isqrt_(_, _)
Isqrt_(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Isqrt_(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE Isqrt_(n, n)
\* 1000 * length of the integral (Simpson's rule, degree at most 3): sqrt(L2 * 10^6) * mean
EdgeInt(m, e, p) ==
  LET u == m.pts[m.edges[e][1] + 1] v == m.pts[m.edges[e][2] + 1]
      L2 == (u[1] - v[1]) * (u[1] - v[1]) + (u[2] - v[2]) * (u[2] - v[2])
      z == <<u[1] + v[1], u[2] + v[2]>>
      six == 4 * PEval(p, 2, 1, u) + 4 * PEval(p, 2, 1, v) + 4 * PEval(p, 2, 2, z)   \* 24 * mean
  IN (Isqrt(L2 * 1000000) * six) \div 24
Fac(ty) == CASE ty = "d" -> <<1>> [] ty \in {"c", "v", "vd"} -> <<1, 2>> [] ty = "m" -> <<1, 2, 3, 4, 5, 6>> [] ty \in {"cm", "m2", "md"} -> <<1, 2, 3, 4>> [] ty \in {"m3", "mr"} -> <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
IntOK(m, E) ==
  LET S == {i \in 1..Len(E.sel) : E.sel[i] # 0}
      tot == IF E.k = 0 THEN SumF([c \in 1..Len(m.cells) |-> CellInt(m, c, E.p)], S)
             ELSE IF E.k = 1 THEN SumF([e \in 1..Len(m.edges) |-> EdgeInt(m, e, E.p)], S)
             ELSE SumF([i \in 1..Len(m.pts) |-> PEval(E.p, 2, 1, m.pts[i])], S)   \* the rule of a point: its value
      f == Fac(E.ty)
      rel == SumF([e \in 1..Len(m.edges) |-> 1 + Abs(EdgeInt(m, e, E.p)) \div 500], S)
  IN /\ Len(E.sel) = (IF E.k = 0 THEN Len(m.cells) ELSE IF E.k = 1 THEN Len(m.edges) ELSE Len(m.pts))
     /\ Len(E.v) = Len(f)
     /\ \A i \in 1..Len(f) :
          IF E.k # 1 THEN E.v[i] = f[i] * tot
          ELSE Near(E.v[i], f[i] * tot, f[i] * (2 + rel))

(* ---- P23: essential boundary conditions --------------------------------------------------------- *)
EssOK(m, sp, E) ==
  LET sel == {e \in 1..Len(m.edges) : E.sel[e] # 0}
      dofs == UNION {SetOf(sp.g[2][e]) : e \in sel}
  IN /\ Len(E.fl) = sp.n
     /\ {i - 1 : i \in {j \in 1..sp.n : E.fl[j] # 0}} = dofs
     /\ \A e \in sel : \A q \in 1..Len(E.edge[e].x) : E.edge[e].v[q] = PEval(E.p, E.d, E.b, E.edge[e].x[q])
===============================================================================
