----------------------------- MODULE HierarchicFE -----------------------------
(* Hierarchic reference elements (P21). Values are rounded to 10^-6, points are  *)
(* in quarters.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Rational

M == 4
HVerts(ref) == CASE ref = "seg" -> <<<<0>>, <<M>>>>
                 [] ref = "tria" -> <<<<0, 0>>, <<M, 0>>, <<0, M>>>>
                 [] ref = "quad" -> <<<<0, 0>>, <<M, 0>>, <<M, M>>, <<0, M>>>>
HSides(ref) == CASE ref = "seg" -> 0 [] ref = "tria" -> 3 [] ref = "quad" -> 4
HOnSide(ref, k, s) ==
  LET v == HVerts(ref) u == v[k] w == v[(k % Len(v)) + 1]
  IN [c \in 1..2 |-> u[c] + ((w[c] - u[c]) * s) \div M]
InnerCount(ref, p) == CASE ref = "seg" -> p - 1
                        [] ref = "tria" -> IF p <= 2 THEN 0 ELSE ((p - 1) * (p - 2)) \div 2
                        [] ref = "quad" -> (p - 1) * (p - 1)
RECURSIVE SumUpTo(_, _)
SumUpTo(pe, k) == IF k = 0 THEN 0 ELSE pe[k] - 1 + SumUpTo(pe, k - 1)
\* position of the first function of side k
First(ref, pe, k) == Len(HVerts(ref)) + SumUpTo(pe, k - 1) + 1
Total(E) == Len(HVerts(E.ref)) + SumUpTo(E.pe, Len(E.pe)) + InnerCount(E.ref, E.pi)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinOf(_, _), MaxOf(_, _)
MinOf(s, a) == IF s = <<>> THEN a ELSE MinOf(Tail(s), Min(Head(s), a))
MaxOf(s, a) == IF s = <<>> THEN a ELSE MaxOf(Tail(s), IF Head(s) > a THEN Head(s) ELSE a)
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)

CountsOK(E) ==
  LET seg == E.ref = "seg" ns == HSides(E.ref) inner == InnerCount(E.ref, E.pi)
      eq == \A k \in 1..ns : E.pe[k] = E.pe[1]
  IN /\ E.re = E.ref /\ E.dim = IF seg THEN 1 ELSE 2
     /\ E.deg = MaxOf(E.pe, E.pi)
     /\ E.n = Total(E) /\ E.nn = E.nnc /\ E.nnr = E.dim
     /\ E.ns = IF seg THEN <<<<inner>>, <<1, 1>>>>
               ELSE <<<<inner>>, [k \in 1..ns |-> E.pe[k] - 1], [k \in 1..ns |-> 1]>>
     /\ eq => E.nc = IF seg THEN <<inner, 1>> ELSE <<inner, E.pe[1] - 1, 1>>
\* the dual functionals applied to the basis give the identity
DualOK(E) == /\ Len(E.id) = E.n
             /\ \A i \in 1..E.n : /\ Len(E.id[i]) = E.n
                                  /\ \A j \in 1..E.n : Near(E.id[i][j], IF i = j THEN 100000 ELSE 0, 3)
\* polynomials of the common degree are reproduced, with their gradients
MonoOK(E) ==
  LET deg == MinOf(E.pe, E.pi) dim == E.dim
      want == IF dim = 1 THEN {<<a, 0>> : a \in 0..deg}
              ELSE {ab \in (0..deg) \X (0..deg) : E.ref = "quad" \/ ab[1] + ab[2] <= deg}
      Mon(a, b, x) == Pw(x[1], a) * (IF dim = 2 THEN Pw(x[2], b) ELSE 1)
  IN /\ {E.mono[i] : i \in 1..Len(E.mono)} = want
     /\ \A i \in 1..Len(E.mono) :
          LET a == E.mono[i][1] b == E.mono[i][2]
          IN a + b <= 12 => \A q \in 1..Len(E.pts) :
               LET x == E.pts[q]
               IN /\ Near(E.mv[i][q], Decimal(Mon(a, b, x), Pw(M, a + b), 6), 4)
                  /\ Near(E.mgx[i][q], IF a = 0 THEN 0 ELSE Decimal(a * Mon(a - 1, b, x), Pw(M, a + b - 1), 5), 4)
                  /\ dim = 2 => Near(E.mgy[i][q], IF b = 0 THEN 0 ELSE Decimal(b * Mon(a, b - 1, x), Pw(M, a + b - 1), 5), 4)
\* gradients are the derivatives: nine point formula, exact up to degree 8, step 1/32
StencilOK(E) ==
  \A s \in 1..Len(E.st) : \A i \in 1..E.n :
    LET f == E.st[s].f[i]
        sum == 672 * (f[6] - f[4]) - 168 * (f[7] - f[3]) + 32 * (f[8] - f[2]) - 3 * (f[9] - f[1])
    IN Near(E.st[s].g[i][1], (sum \div 105) * 4, 90)
\* traces on the sides: functions of the endpoints and of the side itself, all others vanish
TraceOK(E) ==
  LET At(x) == CHOOSE q \in 1..Len(E.pts) : E.pts[q] = x
      nv == HSides(E.ref)
  IN \A k \in 1..nv : \A s \in 0..M :
       LET q == At(HOnSide(E.ref, k, s)) nf == E.pe[k] - 1 f0 == First(E.ref, E.pe, k)
       IN \A i \in 1..E.n :
            Near(E.v[i][q],
                 CASE i = k -> (M - s) * 250000
                   [] i = (k % nv) + 1 -> s * 250000
                   [] i >= f0 /\ i < f0 + nf ->
                        (IF E.o[k] > 0 THEN E.seg[k][2 + (i - f0 + 1)][s + 1]
                         ELSE E.seg[k][2 + nf - (i - f0)][M - s + 1])
                   [] OTHER -> 0, 2)
\* the segment: interior functions vanish at the endpoints, vertex functions are linear
EndsOK(E) == E.ref = "seg" =>
  \A i \in 1..E.n : \A q \in 1..Len(E.pts) :
     LET a == E.pts[q][1] IN
     CASE i = 1 -> Near(E.v[i][q], (M - a) * 250000, 2)
       [] i = 2 -> Near(E.v[i][q], a * 250000, 2)
       [] OTHER -> (a = 0 \/ a = M) => Near(E.v[i][q], 0, 2)
NestedOK(E) == \A i \in 1..Len(E.low) : \E j \in 1..E.n : \A q \in 1..Len(E.pts) : Near(E.low[i][q], E.v[j][q], 2)
HierOK(E) == /\ CountsOK(E) /\ DualOK(E) /\ MonoOK(E) /\ StencilOK(E) /\ TraceOK(E) /\ EndsOK(E) /\ NestedOK(E) /\ E.batch
===============================================================================
