------------------------------ MODULE LocalForms ------------------------------
(* Exact element matrices and vectors on affine cells and straight edges, in the *)
(* basis of the monomials of the reference coordinates.                          *)
(*   reaction:  integral of gamma u v;   diffusion: integral of (alpha grad u).grad v *)
(* Values are decimals with five digits.                                         *)
EXTENDS MeshOps, Rational, TLC

SumSeq(s) == LET RECURSIVE G(_)
                 G(i) == IF i = 0 THEN 0 ELSE s[i] + G(i - 1)
             IN G(Len(s))
SumSet(f, S) == LET RECURSIVE G(_)
                    G(t) == IF t = {} THEN 0 ELSE LET x == CHOOSE y \in t : TRUE IN f[x] + G(t \ {x})
                IN G(S)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Isqrt_(_, _)
Isqrt_(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Isqrt_(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE Isqrt_(n, n)
SDec(n, d) == IF n >= 0 THEN Decimal(n, d, 5) ELSE -Decimal(-n, d, 5)

\* integral of x^a y^b over the reference cell is INum / IDen
INum(nv, a, b) == IF nv = 3 THEN Fact(a) * Fact(b) ELSE 1
IDen(nv, a, b) == IF nv = 3 THEN Fact(a + b + 2) ELSE (a + 1) * (b + 1)

(* ---- affine cells ------------------------------------------------------------------------- *)
P(m, i) == m.pts[i + 1]
Sub(u, w) == [k \in 1..Len(u) |-> u[k] - w[k]]
Dot(u, w) == SumSeq([k \in 1..Len(u) |-> u[k] * w[k]])
Origin(m, c) == P(m, m.cells[c].v[1])
Jac(m, c) == LET v == m.cells[c].v IN <<Sub(P(m, v[2]), P(m, v[1])), Sub(P(m, v[Len(v)]), P(m, v[1]))>>  \* columns
Gram(J) == <<<<Dot(J[1], J[1]), Dot(J[1], J[2])>>, <<Dot(J[1], J[2]), Dot(J[2], J[2])>>>>
DetG(G) == G[1][1] * G[2][2] - G[1][2] * G[1][2]
Measure(J) == Isqrt(DetG(Gram(J)))
Exact(J) == LET w == Measure(J) IN w > 0 /\ w * w = DetG(Gram(J))

(* polynomials in one or two reference variables of degree at most 2: functions on exponents *)
Exps == (0..2) \X (0..2)
Const(k) == [e \in Exps |-> IF e = <<0, 0>> THEN k ELSE 0]
PMul(f, g) == TLCEval([e \in Exps |-> SumSet([d \in {x \in Exps : x[1] <= e[1] /\ x[2] <= e[2]} |->
                                        f[d] * g[<<e[1] - d[1], e[2] - d[2]>>]],
                                     {x \in Exps : x[1] <= e[1] /\ x[2] <= e[2]})])
RECURSIVE PPow(_, _)
PPow(f, n) == IF n = 0 THEN Const(1) ELSE PMul(f, PPow(f, n - 1))
\* k-th coordinate as a polynomial: x0 + J1 a + J2 b
Coord(x0, J, k) == [e \in Exps |-> IF e = <<0, 0>> THEN x0[k] ELSE IF e = <<1, 0>> THEN J[1][k] ELSE IF e = <<0, 1>> THEN J[2][k] ELSE 0]
\* ga: sequence of <<coefficient, exponents of the world coordinates>> in reference coordinates
Pull(ga, x0, J) ==
  LET term(t) == LET RECURSIVE G(_)
                     G(k) == IF k = 0 THEN Const(t[1]) ELSE PMul(PPow(Coord(x0, J, k), t[k + 1]), G(k - 1))
                 IN G(Len(t) - 1)
      terms == TLCEval([i \in 1..Len(ga) |-> term(ga[i])])
  IN TLCEval([e \in Exps |-> SumSeq([i \in 1..Len(ga) |-> terms[i][e]])])

(* integral of f times a^p b^q, where f is a polynomial (function on Exps), times measure *)
Terms(f) == {e \in Exps : f[e] # 0}
IntMon(nv, f, w, p, q) ==
  SumSet([e \in Exps |-> SDec(f[e] * w * INum(nv, e[1] + p, e[2] + q), IDen(nv, e[1] + p, e[2] + q))], Terms(f))
\* does a rule of degree qd integrate this exactly?
Covered(nv, f, qd, p, q) == \A e \in Terms(f) : IF nv = 3 THEN e[1] + e[2] + p + q <= qd ELSE e[1] + p <= qd /\ e[2] + q <= qd

MatVec(A, v) == [i \in 1..Len(A) |-> Dot(A[i], v)]
\* adj(G) J^T alpha J adj(G) / w^2, a 2 x 2 matrix; the diffusion tensor is this divided by w
Tensor(J, al) ==
  LET G == Gram(J) w == Measure(J)
      A == <<<<G[2][2], -G[1][2]>>, <<-G[1][2], G[1][1]>>>>
      B == [k \in 1..2 |-> [l \in 1..2 |-> Dot(J[k], MatVec(al, J[l]))]]
      n(k, l) == SumSeq([p \in 1..2 |-> SumSeq([q \in 1..2 |-> A[k][p] * B[p][q] * A[q][l]])])
  IN [k \in 1..2 |-> [l \in 1..2 |-> n(k, l) \div (w * w)]]
\* derivative of the monomial x in direction k: <<factor, exponents>>
Der(x, k) == <<x[k], [x EXCEPT ![k] = IF @ = 0 THEN 0 ELSE @ - 1]>>
\* rows: test function u, columns: trial function v
DiffInt(nv, T, w, u, v) ==
  SumSeq([i \in 1..4 |->
    LET k == ((i - 1) \div 2) + 1 l == ((i - 1) % 2) + 1
        d == Der(u, k) e == Der(v, l)
        p == d[2][1] + e[2][1] q == d[2][2] + e[2][2]
    IN SDec(T[k][l] * d[1] * e[1] * INum(nv, p, q), w * IDen(nv, p, q))])
DiffCovered(nv, T, qd, u, v) ==
  \A k, l \in 1..2 : T[k][l] = 0 \/ u[k] = 0 \/ v[l] = 0
     \/ LET p == Der(u, k)[2][1] + Der(v, l)[2][1] q == Der(u, k)[2][2] + Der(v, l)[2][2]
        IN IF nv = 3 THEN p + q <= qd ELSE p <= qd /\ q <= qd

Tol == 15
Same(E, x, y, v) == Near(x, v, Tol) /\ Near(y, IF E.cx THEN 2 * v ELSE 0, 2 * Tol)

MatOK(m, E) ==
  /\ E.pad
  /\ Len(E.re) = Len(m.cells) /\ Len(E.act) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       LET nv == Len(m.cells[c].v) mon == IF nv = 3 THEN E.mt ELSE E.mq
           J == Jac(m, c) w == Measure(J) T == TLCEval(Tensor(J, E.al))
           f == TLCEval(Pull(E.ga, Origin(m, c), J))
       IN /\ Exact(J) /\ E.act[c] = 1
          /\ Len(E.re[c]) = Len(mon)
          /\ \A i, k \in 1..Len(mon) :
               LET u == mon[i] v == mon[k] IN
               (Covered(nv, f, E.qd, u[1] + v[1], u[2] + v[2]) /\ DiffCovered(nv, T, E.qd, u, v))
               => Same(E, E.re[c][i][k], E.im[c][i][k],
                       IntMon(nv, f, w, u[1] + v[1], u[2] + v[2]) + DiffInt(nv, T, w, u, v))
LoadOK(m, E) ==
  /\ Len(E.re) = Len(m.cells) /\ Len(E.act) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       LET nv == Len(m.cells[c].v) mon == IF nv = 3 THEN E.mt ELSE E.mq
           J == Jac(m, c) w == Measure(J)
           f == TLCEval(Pull(E.ga, Origin(m, c), J))
           \* the linear element specialisation uses the midpoints of the sides
           cov(u) == IF E.lib # "lin" THEN Covered(nv, f, E.qd, u[1], u[2])
                     ELSE IF nv = 3 THEN Covered(nv, f, 2, u[1], u[2]) ELSE Covered(nv, f, 1, u[1], u[2])
       IN /\ Exact(J) /\ E.act[c] = 1
          /\ Len(E.re[c]) = Len(mon)
          /\ \A i \in 1..Len(mon) :
               LET u == mon[i] IN
               cov(u) => Same(E, E.re[c][i][1], E.im[c][i][1], IntMon(nv, f, w, u[1], u[2]))
(* edges; the logged values are divided by the length of the edge *)
EdgeOK(m, E) ==
  LET isMat == E.lib \in {"fm", "um", "umq"} IN
  /\ Len(E.re) = Len(m.edges) /\ E.act = [e \in 1..Len(m.edges) |-> IF E.sel[e] # 0 THEN 1 ELSE 0]
  /\ \A e \in 1..Len(m.edges) :
       LET a == P(m, m.edges[e][1]) b == P(m, m.edges[e][2])
           f == TLCEval(Pull(E.ga, a, <<Sub(b, a), [k \in 1..Len(a) |-> 0]>>))
           val(p) == SumSet([d \in Exps |-> SDec(f[d], d[1] + p + 1)], Terms(f))
           cov(p) == \A d \in Terms(f) : d[1] + p <= E.qd
           n == Len(E.ms)
       IN /\ Len(E.re[e]) = n
          /\ \A i \in 1..n : \A k \in 1..(IF isMat THEN n ELSE 1) :
               LET p == E.ms[i][1] + (IF isMat THEN E.ms[k][1] ELSE 0) IN
               cov(p) => Same(E, E.re[e][i][k], E.im[e][i][k], val(p))
===============================================================================
