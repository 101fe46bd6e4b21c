------------------------------ MODULE Solvers ------------------------------
(* Discrete boundary value problems end to end.  A problem is a mesh, polynomial *)
(* coefficients, a polynomial u and the kind of condition on every edge; source  *)
(* and boundary data follow from u.  If u belongs to the discrete space and the  *)
(* problem is well posed, then the discrete solution is u: for Galerkin methods  *)
(* with Lagrangian and hierarchic elements, for primal and ultraweak             *)
(* discontinuous Petrov-Galerkin methods (with error estimates equal to zero),   *)
(* and for the Stokes discretisation with constant velocity.                     *)
EXTENDS Skeleton

(* ---- polynomials: sequences of <<coefficient, exponent of x, exponent of y>> -- *)
Coef(p, i, j) == SumS([k \in 1..Len(p) |-> IF p[k][2] = i /\ p[k][3] = j THEN p[k][1] ELSE 0])
MaxDeg == 8
SamePoly(p, q) ==
  /\ \A k \in 1..Len(p) : Coef(p, p[k][2], p[k][3]) = Coef(q, p[k][2], p[k][3])
  /\ \A k \in 1..Len(q) : Coef(p, q[k][2], q[k][3]) = Coef(q, q[k][2], q[k][3])
Keep(p) == SelectSeq(p, LAMBDA t : t[1] # 0)
DX(p) == Keep([k \in 1..Len(p) |-> <<p[k][1] * p[k][2], IF p[k][2] = 0 THEN 0 ELSE p[k][2] - 1, p[k][3]>>])
DY(p) == Keep([k \in 1..Len(p) |-> <<p[k][1] * p[k][3], p[k][2], IF p[k][3] = 0 THEN 0 ELSE p[k][3] - 1>>])
Neg(p) == [k \in 1..Len(p) |-> <<-p[k][1], p[k][2], p[k][3]>>]
Mul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE
  [k \in 1..(Len(p) * Len(q)) |->
     LET a == p[((k - 1) \div Len(q)) + 1] b == q[((k - 1) % Len(q)) + 1]
     IN <<a[1] * b[1], a[2] + b[2], a[3] + b[3]>>]
SumP(ps) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN <<>> ELSE S(k - 1) \o ps[k] IN S(Len(ps))
Degree(p) == IF p = <<>> THEN 0 ELSE CHOOSE d \in 0..MaxDeg : (\E k \in 1..Len(p) : p[k][2] + p[k][3] = d) /\ \A k \in 1..Len(p) : p[k][2] + p[k][3] <= d
\* p at X / s, times s^d
EvalD(p, X, s, d) == SumS([i \in 1..Len(p) |-> p[i][1] * Pow(X[1], p[i][2]) * Pow(X[2], p[i][3]) * Pow(s, d - p[i][2] - p[i][3])])

(* ---- half-step lattice of a cell ---------------------------------------------- *)
Lat(nv) == IF nv = 3 THEN <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<2, 0>>>>
           ELSE <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>>>
\* four times the image of lattice point t
Img(m, c, t) ==
  LET v(j, k) == Corner(m, c, j)[k] IN
  IF NSides(m, c) = 3
  THEN [k \in 1..2 |-> 2 * ((2 - t[1] - t[2]) * v(1, k) + t[1] * v(2, k) + t[2] * v(3, k))]
  ELSE [k \in 1..2 |-> (2 - t[1]) * (2 - t[2]) * v(1, k) + t[1] * (2 - t[2]) * v(2, k) + t[1] * t[2] * v(3, k) + (2 - t[1]) * t[2] * v(4, k)]
\* four times the point with parameter t / 2 on edge e (from 1)
EPt(m, e, t) == LET a == Node(m, m.edges[e][1]) b == Node(m, m.edges[e][2]) IN [k \in 1..2 |-> 2 * ((2 - t) * a[k] + t * b[k])]
\* 4^d times the values of p in all cells
CellValues(m, p, d) == [c \in 1..Len(m.cells) |-> LET L == Lat(NSides(m, c)) IN [i \in 1..Len(L) |-> EvalD(p, Img(m, c, L[i]), 4, d)]]

(* ---- the problem --------------------------------------------------------------- *)
EdgesOf(m, k) == {e \in 0..(Len(m.edges) - 1) : k[e + 1] # 0}
NormalData(m, n) ==
  \A e \in 0..(Len(m.edges) - 1) :
     IF e \in Boundary(m) THEN LET x == CHOOSE y \in SidesOf(m, e) : TRUE IN n[e + 1] = OutN(m, x[1], x[2])
     ELSE n[e + 1] = <<0, 0>>
\* natural conditions only on the boundary, all boundary edges carry a condition
KindsOK(m, k) == \A e \in 0..(Len(m.edges) - 1) : IF e \in Boundary(m) THEN k[e + 1] # 0 ELSE k[e + 1] \in {0, 1}
\* cells connected through edges
RECURSIVE Grow(_, _)
Grow(m, S) ==
  LET T == S \cup {c \in 1..Len(m.cells) : \E d \in S : {m.cells[c].e[j] : j \in 1..Len(m.cells[c].e)} \cap {m.cells[d].e[j] : j \in 1..Len(m.cells[d].e)} # {}}
  IN IF T = S THEN S ELSE Grow(m, T)
\* sum of even powers with nonnegative coefficients and constant term at least c
Above(p, c) == Coef(p, 0, 0) >= c /\ \A k \in 1..Len(p) : p[k][2] + p[k][3] > 0 => p[k][1] >= 0 /\ p[k][2] % 2 = 0 /\ p[k][3] % 2 = 0
\* some condition that rules out constants on every connected part
Anchored(m, k, eta) ==
  \A c \in 1..Len(m.cells) : \E d \in Grow(m, {c}) : \E j \in 1..Len(m.cells[d].e) :
    LET x == k[m.cells[d].e[j] + 1] IN x = 1 \/ (x = 3 /\ eta > 0)
ConvexCells(m) == \A c \in 1..Len(m.cells) : \A j \in 1..NSides(m, c) :
  LET n == NSides(m, c)
      a == Corner(m, c, j) b == Corner(m, c, Nxt(n, j)) z == Corner(m, c, Nxt(n, Nxt(n, j)))
  IN Turn(m, c) * ((b[1] - a[1]) * (z[2] - a[2]) - (b[2] - a[2]) * (z[1] - a[1])) > 0
\* the two cells at an interior edge lie on different sides of it
TwoSided(m) == \A e \in 0..(Len(m.edges) - 1) :
  LET S == SidesOf(m, e) IN
  /\ Cardinality(S) \in {1, 2}
  /\ \A x, y \in S : x # y => OutN(m, x[1], x[2])[1] = -OutN(m, y[1], y[2])[1] /\ OutN(m, x[1], x[2])[2] = -OutN(m, y[1], y[2])[2]

GradOK(m, E) == \A c \in 1..Len(m.cells) : LET L == Lat(NSides(m, c)) IN
  /\ Len(E.grad[c]) = Len(L)
  /\ \A i \in 1..Len(L) : E.grad[c][i] = <<EvalD(DX(E.u), Img(m, c, L[i]), 4, E.deg), EvalD(DY(E.u), Img(m, c, L[i]), 4, E.deg)>>

(* ---- Galerkin --------------------------------------------------------------------- *)
\* the question put to the library is the one described above
GalerkinData(m, E) ==
  /\ ConvexCells(m) /\ TwoSided(m) /\ KindsOK(m, E.kind) /\ NormalData(m, E.nrm)
  /\ E.deg = Degree(E.u) /\ E.deg <= E.p
  /\ SamePoly(E.fx, SumP(<<Mul(E.a11, DX(E.u)), Mul(E.a12, DY(E.u))>>))
  /\ SamePoly(E.fy, SumP(<<Mul(E.a21, DX(E.u)), Mul(E.a22, DY(E.u))>>))
  /\ SamePoly(E.f, SumP(<<Neg(DX(E.fx)), Neg(DY(E.fy)), Mul(E.ga, E.u)>>))
  /\ Above(E.ga, 0) /\ E.eta >= 0
  /\ \A p \in {E.a11, E.a12, E.a21, E.a22} : Degree(p) <= E.p - E.deg + 2
  /\ Degree(E.ga) <= E.p - E.deg
  \* elliptic (symmetric part positive) or a projection
  /\ \/ /\ Above(E.a11, 1) /\ Above(E.a22, 1) /\ Degree(E.a12) = 0 /\ Degree(E.a21) = 0
        /\ 4 * Coef(E.a11, 0, 0) * Coef(E.a22, 0, 0) > (Coef(E.a12, 0, 0) + Coef(E.a21, 0, 0)) * (Coef(E.a12, 0, 0) + Coef(E.a21, 0, 0))
        /\ Above(E.ga, 1) \/ Anchored(m, E.kind, E.eta)
     \/ E.a11 = <<>> /\ E.a12 = <<>> /\ E.a21 = <<>> /\ E.a22 = <<>> /\ Above(E.ga, 1)
BvpOK(m, E) ==
  /\ GalerkinData(m, E)
  /\ E.val = CellValues(m, E.u, E.deg)
  /\ GradOK(m, E)
  /\ E.err = 0

(* ---- discontinuous Petrov-Galerkin --------------------------------------------------- *)
Affine(m) == \A c \in 1..Len(m.cells) : NSides(m, c) = 4 =>
  \A k \in 1..2 : Corner(m, c, 1)[k] + Corner(m, c, 3)[k] = Corner(m, c, 2)[k] + Corner(m, c, 4)[k]
DpgData(m, E) ==
  /\ ConvexCells(m) /\ TwoSided(m) /\ KindsOK(m, E.kind) /\ NormalData(m, E.nrm)
  /\ E.deg = Degree(E.u) /\ E.deg <= E.p /\ E.dp >= 1 /\ (Affine(m) \/ E.dp = 2)
  /\ \A e \in EdgesOf(m, E.kind) : e \in Boundary(m) /\ E.kind[e + 1] \in {1, 2}
  /\ Above(E.al, 1)
  /\ Anchored(m, E.kind, 0) \/ (Above(E.ga, 1) /\ E.bx = <<>> /\ E.by = <<>>)
  /\ IF E.weak = 0
     THEN /\ SamePoly(E.fx, Mul(E.al, DX(E.u))) /\ SamePoly(E.fy, Mul(E.al, DY(E.u)))
          /\ SamePoly(E.f, SumP(<<Neg(DX(E.fx)), Neg(DY(E.fy)), Mul(E.bx, DX(E.u)), Mul(E.by, DY(E.u)), Mul(E.ga, E.u)>>))
          /\ Degree(E.fx) <= E.p - 1 /\ Degree(E.fy) <= E.p - 1 /\ Degree(E.ga) + E.deg <= E.p
          /\ Degree(E.bx) + E.deg <= E.p + 1 /\ Degree(E.by) + E.deg <= E.p + 1
     ELSE /\ Degree(E.al) = 0   \* fx, fy: the flux minus the convected part
          /\ SamePoly(E.fx, SumP(<<Mul(E.al, DX(E.u)), Neg(Mul(E.bx, E.u))>>))
          /\ SamePoly(E.fy, SumP(<<Mul(E.al, DY(E.u)), Neg(Mul(E.by, E.u))>>))
          /\ SamePoly(E.f, SumP(<<Neg(DX(E.fx)), Neg(DY(E.fy)), Mul(E.ga, E.u)>>))
          /\ Degree(E.fx) <= E.p /\ Degree(E.fy) <= E.p /\ Degree(E.ga) + E.deg <= E.p
FluxOK(m, E) ==
  \A e \in 0..(Len(m.edges) - 1) : \A x \in SidesOf(m, e) :
    LET n == OutN(m, x[1], x[2]) s == E.sgn[x[1]][x[2]] IN
    \A t \in 0..2 : E.flux[e + 1][t + 1] =
      s * (n[1] * EvalD(E.fx, EPt(m, e + 1, t), 4, E.fdeg) + n[2] * EvalD(E.fy, EPt(m, e + 1, t), 4, E.fdeg))
DpgOK(m, E) ==
  /\ DpgData(m, E)
  \* two more degrees in the test space than in the trial space make the solution unique, one may do
  /\ E.dp >= 2 => E.uniq
  /\ E.uniq =>
       /\ E.val = CellValues(m, E.u, E.deg)
       /\ FluxOK(m, E)
       /\ E.loc = 0 /\ E.est = 0
  /\ E.uniq /\ E.weak = 1 =>
       /\ E.sx = CellValues(m, Mul(E.al, DX(E.u)), E.fdeg)
       /\ E.sy = CellValues(m, Mul(E.al, DY(E.u)), E.fdeg)
       /\ \A e \in 1..Len(m.edges) : \A t \in 0..2 : E.tr[e][t + 1] = EvalD(E.u, EPt(m, e, t), 4, E.deg)

(* ---- Stokes ----------------------------------------------------------------------------- *)
FlowConst(m, E) == Len(E.v) = Len(m.cells) /\ \A c \in 1..Len(m.cells) : E.v[c] = <<E.gx, E.gy>>
===============================================================================
