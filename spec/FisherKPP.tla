----------------------------- MODULE FisherKPP -----------------------------
(* Strang splitting for the Fisher/KPP equation: Galerkin matrices of piecewise *)
(* linear elements, two-stage diffusion steps, exact logistic growth, and their  *)
(* alternation up to the final time.                                             *)
EXTENDS Skeleton

Tri(m, c) == Abs(Area2(m, c))   \* doubled area
At(i, s) == LET S == {k \in 1..Len(s) : s[k] = i} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
\* opposite edge vector of corner k of a triangle
Opp(m, c, k) == LET a == Corner(m, c, Nxt(3, k)) b == Corner(m, c, Nxt(3, Nxt(3, k))) IN <<b[1] - a[1], b[2] - a[2]>>
SumOver(S, f(_)) == LET RECURSIVE G(_) G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + G(T \ {x}) IN G(S)
\* 2 D times the stiffness matrix, 24 times the mass matrix
Stiff(m, D, i, j) == SumOver({c \in 1..Len(m.cells) : At(i, m.cells[c].v) > 0 /\ At(j, m.cells[c].v) > 0}, LAMBDA c :
  LET a == Opp(m, c, At(i, m.cells[c].v)) b == Opp(m, c, At(j, m.cells[c].v)) IN (D \div Tri(m, c)) * (a[1] * b[1] + a[2] * b[2]))
Mass(m, i, j) == SumOver({c \in 1..Len(m.cells) : At(i, m.cells[c].v) > 0 /\ At(j, m.cells[c].v) > 0}, LAMBDA c :
  Tri(m, c) * (IF i = j THEN 2 ELSE 1))
Length(m, e) == LET a == Node(m, m.edges[e][1]) b == Node(m, m.edges[e][2])
                    L2 == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
                IN CHOOSE k \in 0..200 : k * k = L2
\* 6 times the mass matrix of the boundary
Rim(m, i, j) == SumOver({e \in 1..Len(m.edges) : (e - 1) \in Boundary(m) /\ {i, j} \subseteq SetOf(m.edges[e])}, LAMBDA e :
  Length(m, e) * (IF i = j THEN 2 ELSE 1))
LEntry(s, i, j) == IF s < 0 THEN 0 ELSE ((3 * i + 5 * j + i * j + s) % 5) - 2
GalOK(m, nd, E) ==
  /\ E.n = Len(m.pts) /\ Len(E.A) = E.n /\ Len(E.M) = E.n
  /\ \A i, j \in 0..(E.n - 1) :
       LET a == nd[i + 1] b == nd[j + 1] IN
       /\ E.M[a + 1][b + 1] = Mass(m, i, j)
       /\ E.A[a + 1][b + 1] = 3 * E.c * Stiff(m, E.D, i, j) + (IF E.h = 0 THEN 0 ELSE E.h * E.D * Rim(m, i, j)) - 6 * E.D * LEntry(E.s, a, b)

(* ---- operators on scalars, values times 10^4 ----------------------------------- *)
\* two-stage diagonally implicit Runge-Kutta method with kappa = 1 - sqrt(2)/2 for the
\* equation y' = -y over the time z8 / 8: (1 - (1 - 2 kappa) z) / (1 + kappa z)^2
Amp(z8) == LET n == 10000 - (4142 * z8) \div 8 d == 10000 + (2929 * z8) \div 8 IN (n * 10000) \div ((d * d) \div 10000)
Decay(y, z8) == IF z8 = 0 THEN y ELSE (y * Amp(z8)) \div 10000
\* logistic growth with capacity cap (an integer) while exp(growth rate * time) = 2^k
Logistic(y, cap, k) == IF y = 0 THEN 0 ELSE Decimal(cap * Pow(2, k) * y, cap * 10000 + y * (Pow(2, k) - 1), 4)
\* the method itself: half a step of diffusion, then m steps of growth separated by
\* full steps of diffusion, then half a step of diffusion
Evolve(y, cap, m, q, k) ==
  LET RECURSIVE S(_, _)
      S(z, i) == LET w == Logistic(z, cap, k) IN IF i = m THEN Decay(w, q) ELSE S(Decay(w, 2 * q), i + 1)
  IN S(Decay(y, q), 1)
EvoOK(E) ==
  LET n == Len(E.u) IN
  /\ Len(E.half) = n /\ Len(E.full) = n /\ Len(E.out) = n
  /\ \A i \in 1..n :
       LET y == 2500 * E.u[i] IN
       /\ Near(E.half[i], Decay(y, E.q), 8 + Abs(y) \div 2000)
       /\ Near(E.full[i], Decay(y, 2 * E.q), 8 + Abs(y) \div 2000)
       /\ Near(E.out[i], Evolve(y, E.cap[i], E.m, E.q, E.k), 15 + 10 * E.m)
       \* growth alone is exact up to the final time
       /\ E.q = 0 => Near(E.out[i], Logistic(y, E.cap[i], E.k * E.m), 2)

TotalMass(m, nd, u) == SumS([c \in 1..Len(m.cells) |-> 4 * Tri(m, c) * SumS([j \in 1..3 |-> u[nd[m.cells[c].v[j] + 1] + 1]])])
DiffOK(m, nd, E) ==
  /\ \A k \in 1..Len(E.mass) : E.mass[k] = TotalMass(m, nd, E.u)
  /\ \A k \in 1..Len(E.cst) : E.cst[k] = 3

(* ---- integrals of quadratic polynomials ------------------------------------------- *)
TriInt(p, a, b, c) ==  \* 24 times the integral, by the midpoint rule of the edges
  LET d == Abs((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])) IN
  d * (Eval2(p, <<a[1] + b[1], a[2] + b[2]>>, 2) + Eval2(p, <<b[1] + c[1], b[2] + c[2]>>, 2) + Eval2(p, <<c[1] + a[1], c[2] + a[2]>>, 2))
CellInt(m, p, c) == IF NSides(m, c) = 3 THEN TriInt(p, Corner(m, c, 1), Corner(m, c, 2), Corner(m, c, 3))
                    ELSE TriInt(p, Corner(m, c, 1), Corner(m, c, 2), Corner(m, c, 3)) + TriInt(p, Corner(m, c, 1), Corner(m, c, 3), Corner(m, c, 4))
EdgeInt(m, p, e) == LET a == Node(m, m.edges[e][1]) b == Node(m, m.edges[e][2]) IN
  Length(m, e) * (4 * Eval2(p, a, 1) + 4 * Eval2(p, b, 1) + 4 * Eval2(p, <<a[1] + b[1], a[2] + b[2]>>, 2))
IntOK(m, E) ==
  IF E.cd = 0 THEN E.v = SumS([c \in 1..Len(m.cells) |-> IF E.sel[c] = 0 THEN 0 ELSE CellInt(m, E.p, c)])
  ELSE E.v = SumS([e \in 1..Len(m.edges) |-> IF E.sel[e] = 0 THEN 0 ELSE EdgeInt(m, E.p, e)])
===============================================================================
