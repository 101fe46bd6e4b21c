------------------------------- MODULE Skeleton -------------------------------
(* The skeleton of a planar mesh: signs and outer normals of the sides of cells, *)
(* inflow and outflow parts of the boundary, quadrature on the boundary of the   *)
(* reference cells, essential conditions on product spaces and the local error   *)
(* estimator of the discontinuous Petrov-Galerkin method.                        *)
EXTENDS MeshOps, Rational, TLC

RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Node(m, i) == m.pts[i + 1]
Corner(m, c, j) == Node(m, m.cells[c].v[j])
NSides(m, c) == Len(m.cells[c].v)
Nxt(n, j) == IF j = n THEN 1 ELSE j + 1

(* ---- orientation and normals ----------------------------------------------- *)
Area2(m, c) ==
  LET n == NSides(m, c) IN
  SumS([j \in 1..n |-> Corner(m, c, j)[1] * Corner(m, c, Nxt(n, j))[2] - Corner(m, c, Nxt(n, j))[1] * Corner(m, c, j)[2]])
Turn(m, c) == IF Area2(m, c) > 0 THEN 1 ELSE -1
\* outer normal of side j times its length
OutN(m, c, j) ==
  LET a == Corner(m, c, j) b == Corner(m, c, Nxt(NSides(m, c), j)) t == Turn(m, c)
  IN <<t * (b[2] - a[2]), t * (a[1] - b[1])>>
\* <<cell, side>> pairs of an edge (number from 0)
SidesOf(m, e) == {x \in UNION {{c} \X (1..NSides(m, c)) : c \in 1..Len(m.cells)} : m.cells[x[1]].e[x[2]] = e}
Boundary(m) == {e \in 0..(Len(m.edges) - 1) : Cardinality(SidesOf(m, e)) = 1}

UnitNormal(v, n) ==  \* n: thousand times the unit vector in direction v
  LET L2 == v[1] * v[1] + v[2] * v[2] IN
  /\ Len(n) = 2
  /\ \A k \in 1..2 :
       /\ (v[k] > 0 => n[k] > 0) /\ (v[k] < 0 => n[k] < 0) /\ (v[k] = 0 => n[k] = 0)
       /\ Abs(n[k] * n[k] * L2 - 1000000 * v[k] * v[k]) <= 1000 * L2 + L2
SkelOK(m, E) ==
  /\ Len(E.sgn) = Len(m.cells) /\ Len(E.nrm) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       LET n == NSides(m, c) IN
       /\ Len(E.sgn[c]) = n /\ Len(E.nrm[c]) = n
       /\ \A j \in 1..n : E.sgn[c][j] \in {-1, 1} /\ UnitNormal(OutN(m, c, j), E.nrm[c][j])
  /\ \A e \in 0..(Len(m.edges) - 1) :
       LET S == SidesOf(m, e) IN
       \* a single normal per edge: it leaves exactly one of the adjacent cells, and the domain on the boundary
       S # {} => Cardinality({x \in S : E.sgn[x[1]][x[2]] = 1}) = 1

(* ---- inflow and outflow boundary -------------------------------------------- *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* polynomial p at X / s, times s^2
Eval2(p, X, s) == SumS([i \in 1..Len(p) |-> p[i][1] * Pow(X[1], p[i][2]) * Pow(X[2], p[i][3]) * Pow(s, 2 - p[i][2] - p[i][3])])
FlowOK(m, E) ==
  /\ E.def /\ Len(E.inn) = Len(m.edges) /\ Len(E.out) = Len(m.edges)
  /\ \A e \in 0..(Len(m.edges) - 1) :
       LET i == E.inn[e + 1] o == E.out[e + 1] IN
       IF e \notin Boundary(m) THEN i = 0 /\ o = 0
       ELSE LET x == CHOOSE y \in SidesOf(m, e) : TRUE
                n == OutN(m, x[1], x[2])
                a == Node(m, m.edges[e + 1][1]) b == Node(m, m.edges[e + 1][2])
                mid == <<a[1] + b[1], a[2] + b[2]>>  \* twice the midpoint
                f == Eval2(E.bx, mid, 2) * n[1] + Eval2(E.by, mid, 2) * n[2]
            IN /\ i + o = 1
               /\ (f < 0 => i = 1) /\ (f > 0 => i = 0)
               /\ (f = 0 /\ (n[1] = 0 \/ n[2] = 0)) => i = 0   \* otherwise subject to rounding

(* ---- quadrature rules on the boundary of the reference cell -------------------- *)
Ref(nv) == IF nv = 3 THEN <<<<0, 0>>, <<1, 0>>, <<0, 1>>>> ELSE <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
BqrOK(E) ==
  LET r == Ref(E.nv) n == Len(E.t) IN
  /\ E.sane /\ Len(E.pts) = E.nv /\ Len(E.wts) = E.nv
  /\ \A j \in 1..E.nv :
       LET a == r[j] b == r[Nxt(E.nv, j)]
           L2 == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
       IN /\ Len(E.pts[j]) = n /\ Len(E.wts[j]) = n
          /\ \A i \in 1..n :
               /\ E.pts[j][i] = <<16 * a[1] + E.t[i] * (b[1] - a[1]), 16 * a[2] + E.t[i] * (b[2] - a[2])>>
               /\ IF L2 = 1 THEN E.wts[j][i] = 1000 * E.w[i]
                  ELSE LET v == Abs(E.wts[j][i]) IN
                       /\ (E.w[i] < 0) = (E.wts[j][i] < 0)
                       /\ Abs(v * v - 2000000 * E.w[i] * E.w[i]) <= 2 * v + 2

(* ---- essential conditions ------------------------------------------------------ *)
\* six times the parameters of the nodes of the edge elements
Params(d) == IF d = 0 THEN <<3>> ELSE IF d = 1 THEN <<0, 6>> ELSE IF d = 2 THEN <<0, 6, 3>> ELSE <<0, 6, 2, 4>>
EssOK(m, E) ==
  LET at(e, t) == LET a == Node(m, m.edges[e][1]) b == Node(m, m.edges[e][2])
                  IN <<6 * a[1] + t * (b[1] - a[1]), 6 * a[2] + t * (b[2] - a[2])>>
      part(sel, tab, off, d, f) ==   \* prescribed values: a set of <<dof, value>>
        UNION {{<<off + tab[e][k] + 1, Eval2(f, at(e, Params(d)[k]), 6)>> : k \in 1..(d + 1)} : e \in {x \in 1..Len(m.edges) : sel[x] # 0}}
      V == part(E.ds, E.te, E.to, E.td, E.g) \cup part(E.ns, E.fe, E.fo, E.fd, E.h)
  IN /\ Len(E.fl) = E.n /\ Len(E.va) = E.n
     /\ \A e \in 1..Len(m.edges) : Len(E.te[e]) = E.td + 1 /\ Len(E.fe[e]) = E.fd + 1
     /\ {i \in 1..E.n : E.fl[i] # 0} = {x[1] : x \in V}
     /\ \A x \in V : E.va[x[1]] = x[2]

(* ---- error estimators ------------------------------------------------------------ *)
BTerm(s, e, i, j) == ((3 * e + 5 * i + 7 * j + i * j + s) % 7) - 3
LTerm(e, i, j) == ((2 * e + i + 2 * j) % 3) - 1      \* j < i; the diagonal is one
Solution(s, i) == ((5 * i + s) % 4) - 1
\* columns of the extended element matrix: <<seed or -1, column within the component>>
Cols(ln, seeds) ==
  LET RECURSIVE G(_)
      G(c) == IF c = 0 THEN <<>> ELSE G(c - 1) \o [k \in 1..ln[c] |-> <<seeds[c], k - 1>>]
  IN G(Len(ln))
Residual(E, c) ==
  LET cols == Cols(E.ln[c], E.seeds) IN
  [i \in 1..E.nt[c] |->
     BTerm(E.s, c - 1, i - 1, 0)
     - SumS([k \in 1..Len(cols) |-> IF cols[k][1] < 0 THEN 0
                                    ELSE BTerm(cols[k][1], c - 1, i - 1, cols[k][2]) * Solution(E.s, E.gd[c][k])])]
\* squared norm of the solution y of L y = r, the value of r^T (L L^T)^-1 r
DualNorm2(e, r) ==
  LET RECURSIVE Fwd(_)
      Fwd(i) == IF i = 0 THEN <<>>
                ELSE LET y == Fwd(i - 1) IN Append(y, r[i] - SumS([j \in 1..(i - 1) |-> LTerm(e, i - 1, j - 1) * y[j]]))
      z == Fwd(Len(r))
  IN SumS([i \in 1..Len(z) |-> z[i] * z[i]])
EstOK(m, E) ==
  LET v == [c \in 1..Len(m.cells) |-> DualNorm2(c - 1, Residual(E, c))] IN
  /\ Len(E.sq) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) : Len(E.gd[c]) = Len(Cols(E.ln[c], E.seeds)) /\ E.ng[c] = 0 /\ E.sq[c] = v[c]
  /\ E.pos /\ E.tot = SumS(v)
===============================================================================
