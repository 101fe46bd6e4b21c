------------------------------- MODULE Transfer --------------------------------
(* Functions on mesh hierarchies. State: the levels, each with the parents of its *)
(* entities and the corners (multiples of 1/12) of their relative geometries.     *)
(* A point of a fine entity corresponds to the point of an ancestor obtained by   *)
(* mapping it through the relative geometries, one level after the other.         *)
EXTENDS Rational, Sequences, FiniteSets, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* points are [n |-> sequence of numerators, d |-> common denominator]
Reduce(p) == LET g == IF Len(p.n) = 0 THEN p.d
                      ELSE IF Len(p.n) = 1 THEN Gcd(p.d, p.n[1])
                      ELSE Gcd(Gcd(p.d, p.n[1]), p.n[2])
             IN [n |-> [k \in 1..Len(p.n) |-> p.n[k] \div g], d |-> p.d \div g]
\* barycentric weights (times their sum w.s) of the corners
Weights(nv, p) ==
  CASE nv = 1 -> [w |-> <<1>>, s |-> 1]
    [] nv = 2 -> [w |-> <<p.d - p.n[1], p.n[1]>>, s |-> p.d]
    [] nv = 3 -> [w |-> <<p.d - p.n[1] - p.n[2], p.n[1], p.n[2]>>, s |-> p.d]
    [] nv = 4 -> LET x == p.n[1] y == p.n[2] d == p.d
                 IN [w |-> <<(d - x) * (d - y), x * (d - y), x * y, (d - x) * y>>, s |-> d * d]
RECURSIVE Dot_(_, _, _, _)
Dot_(w, c, k, i) == IF i = 0 THEN 0 ELSE w[i] * c[i][k] + Dot_(w, c, k, i - 1)
\* image of p under the map of the reference element to the polygon with the corners c (1/12)
Image(c, p) ==
  LET w == Weights(Len(c), p)
  IN Reduce([n |-> [k \in 1..Len(c[1]) |-> Dot_(w.w, c, k, Len(c))], d |-> 12 * w.s])

\* the place [cd, ix, p] on level lc below the point p of entity ix on level lf (counted from zero)
RECURSIVE Ancestor(_, _, _, _, _, _)
Ancestor(levs, lc, lf, cd, ix, p) ==
  IF lc = lf THEN [cd |-> cd, ix |-> ix, p |-> p]
  ELSE LET r == levs[lf + 1].par[cd + 1][ix + 1]
       IN Ancestor(levs, lc, lf - 1, r.pc, r.pi, Image(r.rel, p))
Micro(p) == [k \in 1..Len(p.n) |-> Decimal(p.n[k], p.d, 6)]
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol)

NumEnt(lv, cd) == CASE cd = 0 -> Len(lv.cells) [] cd = 1 -> Len(lv.edges) [] cd = 2 -> Len(lv.pts)

TrOK(levs, E) ==
  /\ E.mesh
  /\ \A cd \in 0..2 :
       /\ Len(E.ent[cd + 1]) = NumEnt(levs[E.lf + 1], cd)
       /\ \A i \in 1..Len(E.ent[cd + 1]) :
            LET r == E.ent[cd + 1][i]
            IN /\ Len(r.v) = Len(r.pts)
               /\ \A q \in 1..Len(r.pts) :
                    LET a == Ancestor(levs, E.lc, E.lf, cd, i - 1, [n |-> r.pts[q], d |-> E.m])
                        v == r.v[q]
                    IN v.in /\ v.cd = a.cd /\ v.ix = a.ix /\ NearSeq(v.x, Micro(a.p), 3)

(* ---- prolongation ---------------------------------------------------------------- *)
\* the relative geometry is affine and does not mix the kinds of cells
Plain(lv, c, r) ==
  Len(lv.cells[r.pi + 1].v) = 3 \/
  /\ Len(r.rel) = 4
  /\ \A k \in 1..2 : r.rel[1][k] + r.rel[3][k] = r.rel[2][k] + r.rel[4][k]
  /\ \A k \in 1..4 : LET a == r.rel[k] b == r.rel[(k % 4) + 1] IN a[1] = b[1] \/ a[2] = b[2]
\* the fine space contains the functions of the coarse one
Contained(levs, E) ==
  LET fin == levs[E.lev + 2] crs == levs[E.lev + 1]
      plain == \A c \in 1..Len(fin.cells) : Plain(crs, c, fin.par[1][c])
  IN E.q >= E.p /\ (plain \/ E.q >= 2 * E.p)
ProOK(levs, E) ==
  LET fin == levs[E.lev + 2]
  IN /\ E.same /\ E.len
     /\ Len(E.cells) = Len(fin.cells)
     /\ \A c \in 1..Len(fin.cells) :
          LET r == E.cells[c] IN
          /\ \A q \in 1..Len(r.pts) :
               LET a == Ancestor(levs, E.lev, E.lev + 1, 0, c - 1, [n |-> r.pts[q], d |-> E.m])
               IN r.pi = a.ix /\ NearSeq(r.y[q], Micro(a.p), 3)
          /\ Contained(levs, E) => NearSeq(r.c, r.f, 3)
===============================================================================
