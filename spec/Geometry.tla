------------------------------- MODULE Geometry -------------------------------
(* Geometry objects: state is the shape given by its nodes; every query is     *)
(* determined by it.                                                           *)
EXTENDS Shapes, FiniteSets

OrderOf(ty) == IF ty \in {"seg2", "tria2", "quad2"} THEN 2 ELSE 1
NvOf(ty) == CASE ty = "point" -> 1 [] ty \in {"seg1", "seg2"} -> 2 [] ty \in {"tria1", "tria2"} -> 3 [] OTHER -> 4
ShapeOf(ty, n) == [nv |-> NvOf(ty), k |-> OrderOf(ty), n |-> n]
Dl(nv) == CASE nv = 1 -> 0 [] nv = 2 -> 1 [] OTHER -> 2

(* ---- metric quantities, P11 ------------------------------------------------- *)
RECURSIVE DotV(_, _, _)
DotV(u, v, i) == IF i = 0 THEN 0 ELSE u[i] * v[i] + DotV(u, v, i - 1)
Dot(u, v) == DotV(u, v, Len(u))
\* Jacobian (list of columns), scaled by Den
JacD(s, a, b) == CASE s.nv = 1 -> <<>>
                   [] s.nv = 2 -> <<Comb(ShapeD1(s.nv, s.k, a, b), s.n)>>
                   [] OTHER -> <<Comb(ShapeD1(s.nv, s.k, a, b), s.n), Comb(ShapeD2(s.nv, s.k, a, b), s.n)>>
DetGram(J) == IF Len(J) = 0 THEN 1 ELSE IF Len(J) = 1 THEN Dot(J[1], J[1])
              ELSE Dot(J[1], J[1]) * Dot(J[2], J[2]) - Dot(J[1], J[2]) * Dot(J[1], J[2])
\* J * adj(J^T J), list of columns
JAdj(J) == IF Len(J) = 1 THEN J
           ELSE LET a == Dot(J[1], J[1]) b == Dot(J[1], J[2]) c == Dot(J[2], J[2])
                IN <<[x \in 1..Len(J[1]) |-> c * J[1][x] - b * J[2][x]],
                     [x \in 1..Len(J[1]) |-> a * J[2][x] - b * J[1][x]]>>
Abs(x) == IF x < 0 THEN -x ELSE x

EvalOK(s, E) ==
  LET n == Len(E.pts)
      dl == Dl(s.nv)
      dg == Len(s.n[1])
      Jx == [k \in 1..n |-> JacD(s, E.pts[k][1], E.pts[k][2])]
      d == Den(s.nv, s.k)
  IN /\ E.dims = <<dg, n, dg, n * dl, n * dl, n>>
     /\ E.J = E.Ja
     /\ IF E.e = "ev"
        THEN /\ E.g = [k \in 1..n |-> MapD(s, E.pts[k][1], E.pts[k][2])]
             /\ E.ga = E.g
             /\ dl > 0 => E.J = Jx
        ELSE \* points where the Jacobian is integer
             /\ dl > 0 => E.J = [k \in 1..n |-> [c \in 1..dl |-> [x \in 1..dg |-> IF Jx[k][c][x] % d = 0 THEN Jx[k][c][x] \div d ELSE 1999999999]]]
             /\ E.ie2a = E.ie2
             /\ E.ie2 = [k \in 1..n |-> IF dl = 0 THEN 1 ELSE DetGram(E.J[k])]
             /\ E.I = E.Ia \/ \E k \in 1..n : DetGram(E.J[k]) = 0
             /\ dl > 0 => \A k \in 1..n :
                  LET dt == DetGram(E.J[k])
                      R == JAdj(E.J[k])
                  IN dt = 0 \/ \A c \in 1..dl : \A x \in 1..dg :
                       Abs(E.I[k][c][x]) < 2000000000 /\ Abs(E.I[k][c][x] * dt - 1000 * R[c][x]) <= dt
AffineTy(ty) == ty \in {"seg1", "tria1", "para", "para3"}
\* an object as constructed: (2*volume)^2 for the affine types
ObjOK(E) ==
  LET s == ShapeOf(E.ty, E.n)
      dg == Len(E.n[1])
      J == JacD(s, 0, 0)
      d == Den(s.nv, s.k)
      Ji == [c \in 1..Len(J) |-> [x \in 1..dg |-> J[c][x] \div d]]
  IN /\ E.nv = s.nv /\ E.dl = Dl(s.nv) /\ E.dg = dg
     /\ E.ty \in {"quad1", "quad2", "seg2", "tria2"} \/ E.affine
     /\ AffineTy(E.ty) => E.vol4 = (IF s.nv = 3 THEN 1 ELSE 4) * DetGram(Ji)
     /\ E.ty = "point" => E.vol4 = 4

(* ---- sub- and child geometries, P10 ------------------------------------------ *)
\* the shape of a sub-entity
SubShape(s, cd, i) ==
  IF cd = 0 THEN s
  ELSE IF s.nv > 2 /\ cd = 1
  THEN LET a == s.n[i + 1] b == s.n[((i + 1) % s.nv) + 1]
       IN [nv |-> 2, k |-> s.k, n |-> IF s.k = 1 THEN <<a, b>> ELSE <<a, b, s.n[s.nv + i + 1]>>]
  ELSE [nv |-> 1, k |-> 1, n |-> <<s.n[i + 1]>>]
ScaleV(v, m) == [x \in 1..Len(v) |-> m * v[x]]
SubOK(s, E) ==
  LET t == SubShape(s, E.cd, E.i)
  IN /\ E.nv = t.nv /\ E.dl = Dl(t.nv) /\ E.dg = Len(s.n[1])
     /\ E.c = SubSeq(t.n, 1, t.nv)
     /\ E.m = [k \in 1..Len(RefMids(t.nv)) |-> MapZ(t, RefMids(t.nv)[k][1], RefMids(t.nv)[k][2])]
     /\ E.q = (CASE t.nv = 1 -> <<>>
                 [] t.nv = 2 -> <<ScaleV(MapD(t, 3, 0), 144 \div Den(2, t.k)), ScaleV(MapD(t, 8, 0), 144 \div Den(2, t.k))>>
                 [] OTHER -> <<ScaleV(MapD(t, 3, 6), 1728 \div Den(t.nv, t.k)), ScaleV(MapD(t, 4, 2), 1728 \div Den(t.nv, t.k))>>)
P2(p) == IF Len(p) = 2 THEN p ELSE IF Len(p) = 1 THEN <<p[1], 0>> ELSE <<0, 0>>
ChildOK(s, E) ==
  /\ Len(E.ch) = Len(E.poly)
  /\ \A i \in 1..Len(E.poly) :
       LET q == E.poly[i]
           c == E.ch[i]
           n == Len(q)
           nx(k) == (k % n) + 1
           m == IF n = 1 THEN 0 ELSE IF n = 2 THEN 1 ELSE n
           corner(k) == MapD(s, P2(q[k])[1], P2(q[k])[2])
       IN /\ c.nv = n /\ c.dl = Dl(n) /\ c.dg = Len(s.n[1])
          /\ c.c = [k \in 1..n |-> corner(k)]
          /\ Len(c.m) = m
          /\ \A k \in 1..m :
               c.m[k] = IF s.k = 2 THEN MapD(s, (P2(q[k])[1] + P2(q[nx(k)])[1]) \div 2, (P2(q[k])[2] + P2(q[nx(k)])[2]) \div 2)
                        ELSE [x \in 1..Len(corner(k)) |-> (corner(k)[x] + corner(nx(k))[x]) \div 2]
===============================================================================
