------------------------------- MODULE DpgForms -------------------------------
(* Bilinear and linear forms of discontinuous Petrov-Galerkin methods on affine  *)
(* cells: diffusion, reaction, convection, flux and trace terms; the element      *)
(* matrix B^T G^-1 B and vector B^T G^-1 l; broken and trace reference elements.   *)
EXTENDS LocalForms, Skeleton

(* ---- polynomials in one variable: coefficients of 1, t, t^2, .. --------------- *)
UMul(f, g) == LET n == Len(f) m == Len(g)
                  RECURSIVE G(_, _)   \* terms of degree k - 1 with the coefficients up to i of f
                  G(k, i) == IF i = 0 \/ k - i + 1 > m THEN 0 ELSE f[i] * g[k - i + 1] + G(k, i - 1)
              IN TLCEval([k \in 1..(n + m - 1) |-> G(k, IF k < n THEN k ELSE n)])
RECURSIVE UPow(_, _)
UPow(f, n) == IF n = 0 THEN <<1>> ELSE UMul(f, UPow(f, n - 1))
UAdd(f, g) == TLCEval([k \in 1..(IF Len(f) > Len(g) THEN Len(f) ELSE Len(g)) |->
                 (IF k <= Len(f) THEN f[k] ELSE 0) + (IF k <= Len(g) THEN g[k] ELSE 0)])
UScale(c, f) == TLCEval([k \in 1..Len(f) |-> c * f[k]])
UDeg(f) == LET S == {k \in 1..Len(f) : f[k] # 0} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : \A j \in S : j <= k) - 1
UInt(f) == SumS([k \in 1..Len(f) |-> SDec(f[k], k)])   \* integral over (0, 1)

\* local side j of the reference cell as a curve (a(t), b(t))
RefSide(nv, j) == LET r == Ref(nv) a == r[j] b == r[Nxt(nv, j)]
                  IN <<<<a[1], b[1] - a[1]>>, <<a[2], b[2] - a[2]>>>>
\* monomials of degree at most 6 along the sides of both reference cells
MaxDeg == 6
Mons == (0..MaxDeg) \X (0..MaxDeg)
Pows(f) == LET RECURSIVE G(_)
               G(n) == IF n = 0 THEN <<<<1>>>> ELSE LET p == G(n - 1) IN Append(p, UMul(p[n], f))
           IN G(MaxDeg)
SideTab(nv) == TLCEval([j \in 1..nv |-> LET s == RefSide(nv, j) A == TLCEval(Pows(s[1])) B == TLCEval(Pows(s[2]))
                                IN TLCEval([u \in Mons |-> UMul(A[u[1] + 1], B[u[2] + 1])])])
Tabs == TLCEval(<<SideTab(3), SideTab(4)>>)
MonOnSide(nv, j, u) == Tabs[nv - 2][j][u]
Flips == TLCEval(<<Pows(<<0, 1>>), Pows(<<1, -1>>)>>)
\* world coordinates along local side j of cell c
SideCurve(m, c, j) == LET a == Corner(m, c, j) b == Corner(m, c, Nxt(NSides(m, c), j))
                      IN <<<<a[1], b[1] - a[1]>>, <<a[2], b[2] - a[2]>>>>
PolyOnSide(m, c, j, p) ==
  LET x == SideCurve(m, c, j)
      t(i) == UScale(p[i][1], UMul(UPow(x[1], p[i][2]), UPow(x[2], p[i][3])))
      RECURSIVE G(_)
      G(i) == IF i = 0 THEN <<0>> ELSE UAdd(t(i), G(i - 1))
  IN G(Len(p))

(* ---- bases: monomials of the cell, or <<side, power>> for fluxes ----------------- *)
CellMons(nv, d) ==
  IF nv = 4 THEN [i \in 1..((d + 1) * (d + 1)) |-> <<(i - 1) \div (d + 1), (i - 1) % (d + 1)>>]
  ELSE LET RECURSIVE G(_)
           G(a) == IF a < 0 THEN <<>> ELSE G(a - 1) \o [b \in 1..(d - a + 1) |-> <<a, b - 1>>]
       IN G(d)
Basis(nv, comp) == IF comp[1] # "f" THEN CellMons(nv, comp[2])
                   ELSE [i \in 1..(nv * (comp[2] + 1)) |-> <<((i - 1) \div (comp[2] + 1)) + 1, (i - 1) % (comp[2] + 1)>>]
Deg(comp) == comp[2]

(* ---- terms: <<value, is the quadrature exact?>> ------------------------------------ *)
DiffTerm(m, c, T, qd, u, v) ==
  <<DiffInt(NSides(m, c), T, Measure(Jac(m, c)), u, v), DiffCovered(NSides(m, c), T, qd, u, v)>>
\* components of sgn(det J) adj(J) beta as polynomials of the reference coordinates
Contra(m, c, bx, by) ==
  LET J == Jac(m, c) s == IF J[1][1] * J[2][2] - J[1][2] * J[2][1] > 0 THEN 1 ELSE -1
      fx == TLCEval(Pull(bx, Origin(m, c), J)) fy == TLCEval(Pull(by, Origin(m, c), J))
  IN <<TLCEval([e \in Exps |-> s * (J[2][2] * fx[e] - J[2][1] * fy[e])]), TLCEval([e \in Exps |-> s * (J[1][1] * fy[e] - J[1][2] * fx[e])])>>
\* integral of (grad a . beta) b
\* T: table of the components of C, see Table
AdvTerm(T, a, b) ==
  LET t(k) == LET d == Der(a, k) x == T[k][<<d[2][1] + b[1], d[2][2] + b[2]>>] IN
              IF d[1] = 0 THEN <<0, TRUE>> ELSE <<d[1] * x[1], x[2]>>
      p == t(1) q == t(2)
  IN <<p[1] + q[1], p[2] /\ q[2]>>
\* integrals of f times the monomials, and whether the quadrature finds them
Table(nv, F, w, qd, ws) == LET f == TLCEval(F) IN TLCEval([u \in ws |-> <<IntMon(nv, f, w, u[1], u[2]), Covered(nv, f, qd, u[1], u[2])>>])
TraceTable(m, c, bx, by, qd, ws) ==
  LET nv == NSides(m, c)
      b == TLCEval([j \in 1..nv |-> LET n == OutN(m, c, j)
                                    IN UAdd(UScale(n[1], PolyOnSide(m, c, j, bx)), UScale(n[2], PolyOnSide(m, c, j, by)))])
  IN TLCEval([u \in ws |-> LET fs == TLCEval([j \in 1..nv |-> UMul(b[j], MonOnSide(nv, j, u))])
                   IN <<SumS([j \in 1..nv |-> UInt(fs[j])]), \A j \in 1..nv : UDeg(fs[j]) <= qd>>])
\* basis functions of fluxes: <<side, power>>; the value is divided by the length of the side
FluxTable(m, c, sgn, ga, qd, us, qs) ==
  LET nv == NSides(m, c)
      g == TLCEval([j \in 1..nv |-> PolyOnSide(m, c, j, ga)])
      G == TLCEval([u \in us, j \in 1..nv |-> UMul(g[j], MonOnSide(nv, j, u))])
  IN TLCEval([u \in us, q \in qs |->
        LET j == q[1]
            s == Flips[IF m.edges[m.cells[c].e[j] + 1][1] = m.cells[c].v[j] THEN 1 ELSE 2]
            f == TLCEval(UMul(G[u, j], s[q[2] + 1]))
        IN <<sgn[j] * UInt(f), UDeg(f) <= qd>>])

Zero == <<0, TRUE>>
Plus(a, b) == <<a[1] + b[1], a[2] /\ b[2]>>
\* integrals needed for a term; us, vs: exponents of the test and trial functions
Prep(m, c, E, t, qd, us, vs) ==
  LET nv == NSides(m, c)
      ws == {<<u[1] + v[1], u[2] + v[2]>> : u \in us, v \in vs}
  IN CASE t.k = "diff" -> Tensor(Jac(m, c), t.al)
       [] t.k = "reac" -> Table(nv, Pull(t.ga, Origin(m, c), Jac(m, c)), Measure(Jac(m, c)), qd, ws)
       [] t.k = "conv" -> LET b == Contra(m, c, t.bx, t.by) d == Contra(m, c, t.cx, t.cy)
                              T(C) == <<Table(nv, C[1], 1, qd, ws), Table(nv, C[2], 1, qd, ws)>>
                          IN <<T(b), T(d)>>
       [] t.k = "trace" -> TraceTable(m, c, t.bx, t.by, qd, ws)
       [] t.k = "flux" -> FluxTable(m, c, E.sgn[c], t.ga, qd, us, vs)
\* u: test function, v: trial function
Term(m, c, t, pre, qd, u, v) ==
  CASE t.k = "diff" -> DiffTerm(m, c, pre, qd, u, v)
    [] t.k = "conv" -> Plus(AdvTerm(pre[1], u, v), AdvTerm(pre[2], v, u))
    [] t.k \in {"reac", "trace"} -> pre[<<u[1] + v[1], u[2] + v[2]>>]
    [] t.k = "flux" -> pre[u, v]

TolF == 45
SameF(cx, re, im, v) == Near(re, v, TolF) /\ (cx => Near(im, 2 * v, 2 * TolF))
DpgMatOK(m, E) ==
  /\ E.ok /\ Len(E.re) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       LET nv == NSides(m, c)
       IN /\ Exact(Jac(m, c))
          /\ \A te \in 1..Len(E.te), tr \in 1..Len(E.tr) :
               LET bu == TLCEval(Basis(nv, E.te[te])) bv == TLCEval(Basis(nv, E.tr[tr]))
                   qd == E.te[te][2] + E.tr[tr][2]
                   ts == SelectSeq(E.ts, LAMBDA t : t.te = te - 1 /\ t.tr = tr - 1)
                   pre == TLCEval([i \in 1..Len(ts) |-> Prep(m, c, E, ts[i], qd, {bu[k] : k \in 1..Len(bu)}, {bv[k] : k \in 1..Len(bv)})])
                   tot(u, v) == LET RECURSIVE G(_)
                                    G(i) == IF i = 0 THEN Zero ELSE Plus(Term(m, c, ts[i], pre[i], qd, u, v), G(i - 1))
                                IN G(Len(ts))
                   B == E.re[c][te][tr]
               IN /\ Len(B) = Len(bu)
                  /\ \A i \in 1..Len(bu) :
                       /\ Len(B[i]) = Len(bv)
                       /\ \A k \in 1..Len(bv) :
                            LET x == TLCEval(tot(bu[i], bv[k])) IN
                            x[2] => SameF(E.cx, B[i][k], IF E.cx THEN E.im[c][te][tr][i][k] ELSE 0, x[1])
DpgVecOK(m, E) ==
  /\ Len(E.re) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) : \A te \in 1..Len(E.te) :
       LET nv == NSides(m, c) bu == Basis(nv, E.te[te])
           act == {i \in 1..Len(E.ts) : E.ts[i].te = te - 1}
           pl == TLCEval([i \in act |-> TLCEval(Pull(E.ts[i].ga, Origin(m, c), Jac(m, c)))])
           f == TLCEval([e \in Exps |-> SumSet([i \in act |-> pl[i][e]], act)])
           v == E.re[c][te][1]
       IN /\ Len(E.re[c][te]) = 1 /\ Len(v) = Len(bu)
          /\ \A i \in 1..Len(bu) :
               Covered(nv, f, 2 * E.te[te][2], bu[i][1], bu[i][2])
               => SameF(E.cx, v[i], IF E.cx THEN E.im[c][te][1][i] ELSE 0, IntMon(nv, f, Measure(Jac(m, c)), bu[i][1], bu[i][2]))

(* ---- B^T G^-1 B and B^T G^-1 l with G = L L^T ------------------------------------- *)
Forward(e, r) ==
  LET RECURSIVE Fwd(_)
      Fwd(i) == IF i = 0 THEN <<>>
                ELSE LET y == Fwd(i - 1) IN Append(y, r[i] - SumS([j \in 1..(i - 1) |-> LTerm(e, i - 1, j - 1) * y[j]]))
  IN Fwd(Len(r))
OptOK(m, E) ==
  /\ E.act /\ Len(E.a) = Len(m.cells) /\ Len(E.v) = Len(m.cells)
  /\ \A c \in 1..Len(m.cells) :
       LET cols == Cols(E.ln[c], E.seeds) n == E.nt[c]
           y == TLCEval([k \in 1..Len(cols) |->
                  Forward(c - 1, [i \in 1..n |-> IF cols[k][1] < 0 THEN 0 ELSE BTerm(cols[k][1], c - 1, i - 1, cols[k][2])])])
           z == Forward(c - 1, [i \in 1..n |-> BTerm(E.s, c - 1, i - 1, 0)])
       IN /\ Len(E.a[c]) = Len(cols) /\ Len(E.v[c]) = 1 /\ Len(E.v[c][1]) = Len(cols)
          /\ \A k \in 1..Len(cols) :
               /\ Len(E.a[c][k]) = Len(cols)
               /\ \A i \in 1..Len(cols) : E.a[c][k][i] = 10 * Dot(y[i], y[k])
               /\ E.v[c][1][k] = 10 * Dot(y[k], z)

(* ---- broken and trace reference elements --------------------------------------------- *)
Take(s, n) == [i \in 1..n |-> s[i]]
Dim(nv) == IF nv = 2 THEN 1 ELSE 2
NSub(nv, c) == IF c = 0 THEN 1 ELSE nv
WrapOK(E) ==
  LET b == E.b w == E.w dim == Dim(E.nv)
      keep == IF E.k = "l" THEN b.n ELSE b.n - b.cnt[1]
      own(c) == IF E.k = "l" THEN (IF c = 0 THEN b.n ELSE 0) ELSE (IF c = 0 THEN 0 ELSE b.cnt[c + 1])
  IN /\ w.id = b.id /\ w.deg = b.deg /\ b.deg = E.d
     /\ w.n = keep /\ w.nn = keep
     /\ \A c \in 0..dim : /\ w.cnt[c + 1] = own(c)
                          /\ w.sub[c + 1] = [i \in 1..NSub(E.nv, c) |-> own(c)]
     \* the shape functions of the entities add up
     /\ SumS([c \in 1..(dim + 1) |-> SumS(w.sub[c])]) = w.n
     /\ Len(w.val) = keep /\ Len(w.grad) = keep /\ Len(w.nodes) = keep
     /\ Len(b.val) = b.n
     /\ \A i \in 1..keep : w.val[i] = b.val[i] /\ w.grad[i] = b.grad[i] /\ w.nodes[i] = b.nodes[i]
     \* nodal basis
     /\ w.dofs = <<[i \in 1..keep |-> (i - 1) * (i - 1) + 3]>>
     \* constants: one function with value one
     /\ E.d = 0 => /\ b.n = 1 /\ b.cnt = [c \in 1..(dim + 1) |-> IF c = 1 THEN 1 ELSE 0]
                   /\ \A i \in 1..Len(b.val[1]) : b.val[1][i] = 1000000
                   /\ \A i \in 1..Len(b.grad[1]) : b.grad[1][i] = 0
                   /\ Len(b.val[1]) = 6 /\ Len(b.grad[1]) = 6 * dim
                   /\ \A k \in 1..dim : b.nodes[1][k] > 0 /\ b.nodes[1][k] < 1000000
                   /\ (E.nv = 3 => b.nodes[1][1] + b.nodes[1][2] < 1000000)
===============================================================================
