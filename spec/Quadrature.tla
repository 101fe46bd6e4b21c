------------------------------ MODULE Quadrature ------------------------------
(* Quadrature rules. A rule is observed through its points, its weights and its  *)
(* values on the Bernstein polynomials of its announced degree, which span the   *)
(* polynomials it must integrate exactly (total degree on the triangle, degree   *)
(* in each variable on the square) and whose integrals are all equal.            *)
EXTENDS Rational, Sequences, FiniteSets

S8 == 100000000
Dim(ref) == IF ref = "seg" THEN 1 ELSE 2
NumBasis(ref, d) == CASE ref = "seg" -> d + 1
                      [] ref = "tria" -> ((d + 1) * (d + 2)) \div 2
                      [] ref = "quad" -> (d + 1) * (d + 1)
\* reciprocal of the integral of each Bernstein polynomial of degree d
InvIntegral(ref, d) == CASE ref = "seg" -> d + 1
                         [] ref = "tria" -> (d + 1) * (d + 2)
                         [] ref = "quad" -> (d + 1) * (d + 1)
Tol == 3
\* digits k+1 .. k+5 of num / den
Fraction5(num, den, k) == LET RECURSIVE Rem(_, _) Rem(r, n) == IF n = 0 THEN r ELSE Rem((10 * r) % den, n - 1) IN Decimal(Rem(num % den, k), den, 5)
\* number i logged in e, with k decimals in e.m and five more in e.f, equals num / den
Digits(e, i, num, den, k) ==
  LET x == Decimal(num, den, k) IN
  /\ Near(e.m[i], x, 1) /\ e.f[i] \in 0..99999
  /\ Near((e.m[i] - x) * 100000 + e.f[i], Fraction5(num, den, k), Tol)
Inside(ref, p) ==
  /\ \A i \in 1..Dim(ref) : p[i] >= 0 /\ p[i] <= S8
  /\ ref = "tria" => p[1] + p[2] <= S8 + 1
\* consistency of a rule e for reference element ref
RuleOK(ref, e) ==
  /\ e.ret = ref
  /\ e.ord = e.deg + 1
  /\ e.np = Len(e.pts) /\ e.nw = e.np /\ e.cols = e.np /\ e.rows = Dim(ref) /\ e.np > 0
  /\ \A i \in 1..e.np : Inside(ref, e.pts[i])
  /\ Len(e.m) = NumBasis(ref, e.deg) /\ Len(e.f) = Len(e.m)
  /\ \A i \in 1..Len(e.m) : Digits(e, i, 1, InvIntegral(ref, e.deg), e.s)

\* points in units of 1/6
At(e, p6) == \E i \in 1..e.np : \A k \in 1..Len(p6) : Near(6 * (e.pts[i][k] \div 1), p6[k] * S8, 12)
Equal(e) == \A i \in 1..e.np : Near(e.w[i], e.w[1], 1)
\* in units of 1/6 as pairs; 6 * S8 fits into 32 bits
Named ==
  [TriaMid     |-> [ref |-> "tria", deg |-> 1, np |-> 1, at |-> {<<2, 2>>}],
   TriaP1O2    |-> [ref |-> "tria", deg |-> 1, np |-> 1, at |-> {<<2, 2>>}],
   TriaEdgeMid |-> [ref |-> "tria", deg |-> 2, np |-> 3, at |-> {<<3, 0>>, <<3, 3>>, <<0, 3>>}],
   TriaP3O3    |-> [ref |-> "tria", deg |-> 2, np |-> 3, at |-> {<<3, 0>>, <<3, 3>>, <<0, 3>>}],
   TriaP7O6    |-> [ref |-> "tria", deg |-> 5, np |-> 7, at |-> {}],
   TriaP6O4    |-> [ref |-> "tria", deg |-> 3, np |-> 6, at |-> {}],
   QuadMid     |-> [ref |-> "quad", deg |-> 1, np |-> 1, at |-> {<<3, 3>>}],
   QuadP1O2    |-> [ref |-> "quad", deg |-> 1, np |-> 1, at |-> {<<3, 3>>}],
   QuadEdgeMid |-> [ref |-> "quad", deg |-> 1, np |-> 4, at |-> {<<3, 0>>, <<6, 3>>, <<3, 6>>, <<0, 3>>}],
   QuadP4O2    |-> [ref |-> "quad", deg |-> 1, np |-> 4, at |-> {<<3, 0>>, <<6, 3>>, <<3, 6>>, <<0, 3>>}],
   QuadP4O4    |-> [ref |-> "quad", deg |-> 3, np |-> 4, at |-> {}],
   Nodalseg    |-> [ref |-> "seg", deg |-> 1, np |-> 2, at |-> {<<0>>, <<6>>}],
   Nodaltria   |-> [ref |-> "tria", deg |-> 1, np |-> 3, at |-> {<<0, 0>>, <<6, 0>>, <<0, 6>>}],
   Nodalquad   |-> [ref |-> "quad", deg |-> 1, np |-> 4, at |-> {<<0, 0>>, <<6, 0>>, <<6, 6>>, <<0, 6>>}]]
NamedOK(e) ==
  LET n == Named[e.name]
  IN /\ RuleOK(n.ref, e)
     /\ e.deg >= n.deg
     /\ e.np = n.np
     /\ \A p \in n.at : At(e, p)
     /\ n.at # {} => Equal(e)

\* Gauss rules: integral over [-1,1] of (1-x)^a (1+x)^b times the i-th of the d+1
\* Bernstein polynomials of degree d = 2n - 1 (a, b in {0, 1, 2}); on [0,1] without
\* weight for kind "leg"
RECURSIVE Rise(_, _)
Rise(x, k) == IF k = 0 THEN 1 ELSE x * Rise(x + 1, k - 1)
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE 32
GaussOK(e) ==
  LET d == 2 * e.n - 1
  IN /\ e.np = e.n /\ e.nw = e.n /\ Len(e.m) = d + 1 /\ Len(e.f) = d + 1
     /\ \A i \in 1..e.n : e.pts[i] > 0 /\ e.pts[i] < S8
     /\ \A i, j \in 1..e.n : i # j => e.pts[i] # e.pts[j]
     /\ \A i \in 0..d :
          LET num == IF e.kind = "leg" THEN 1 ELSE Pow2(e.a + e.b + 1) * Rise(i + 1, e.b) * Rise(d - i + 1, e.a)
              den == IF e.kind = "leg" THEN d + 1 ELSE Rise(d + 1, e.a + e.b + 1)
          IN Digits(e, i + 1, num, den, 8)
===============================================================================
