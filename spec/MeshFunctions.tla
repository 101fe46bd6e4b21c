----------------------------- MODULE MeshFunctions -----------------------------
(* Algebra of mesh functions: the value of an expression at a point of an entity *)
(* is the operation applied to the values of the operands at that point.         *)
(* A value is [k, r, c, x]: kind s(calar), m(atrix), a(rray), u(ser type), size, *)
(* entries row by row as pairs <<re, im>>.                                       *)
EXTENDS Integers, Sequences

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
At(v, i, j) == v.x[(i - 1) * v.c + j]
Mk(k, r, c, f(_, _)) == [k |-> k, r |-> r, c |-> c, x |-> [q \in 1..(r * c) |-> f(((q - 1) \div c) + 1, ((q - 1) % c) + 1)]]
Zip(u, v, f(_, _)) == [u EXCEPT !.x = [q \in 1..Len(u.x) |-> f(u.x[q], v.x[q])]]
Each(u, f(_)) == [u EXCEPT !.x = [q \in 1..Len(u.x) |-> f(u.x[q])]]
SameShape(u, v) == u.k = v.k /\ u.r = v.r /\ u.c = v.c
RECURSIVE CSum(_, _)
CSum(s, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(CSum(s, n - 1), s[n])

Add(u, v) == Zip(u, v, CAdd)
Sub(u, v) == Zip(u, v, CSub)
Mul(u, v) ==
  CASE u.k = "s" -> Each(v, LAMBDA z : CMul(u.x[1], z))
    [] v.k = "s" -> Each(u, LAMBDA z : CMul(z, v.x[1]))
    [] u.k = "a" -> Zip(u, v, CMul)
    [] u.k = "m" -> Mk("m", u.r, v.c, LAMBDA i, j : CSum([t \in 1..u.c |-> CMul(At(u, i, t), At(v, t, j))], u.c))
    \* the type of the user: composition of x -> a x + b
    [] u.k = "u" -> [u EXCEPT !.x = <<CMul(u.x[1], v.x[1]), CAdd(CMul(u.x[1], v.x[2]), u.x[2])>>]
Neg(u) == Each(u, CNeg)
Conj(u) == Each(u, CConj)
Tr(u) == Mk(u.k, u.c, u.r, LAMBDA i, j : At(u, j, i))
Adj(u) == Conj(Tr(u))
Sq(u) == [k |-> "s", r |-> 1, c |-> 1, x |-> <<CSum([q \in 1..Len(u.x) |-> CMul(u.x[q], CConj(u.x[q]))], Len(u.x))>>]

(* ---- operands -------------------------------------------------------------------- *)
\* entry (i, j), counted from zero, of an operand with the parameters p
Coef(p, ent, x, y, comp, part) == ((p[1] + p[5] * ent + p[2] * x + p[3] * y + p[4] * comp + 5 * part) % 7) - 3
Operand(o, ent, x, y) ==
  Mk(o.k, o.r, o.c, LAMBDA i, j :
    LET comp == 3 * (i - 1) + j - 1
    IN <<Coef(o.p, ent, x, y, comp, 0), IF o.z = 1 THEN Coef(o.p, ent, x, y, comp, 1) ELSE 0>>)

(* ---- geometry: 16 times the image of the local point (x/4, y/4) -------------------- *)
\* w: corners of the entity
Map16(w, x, y, k) ==
  CASE Len(w) = 1 -> 16 * w[1][k]
    [] Len(w) = 2 -> 4 * ((4 - x) * w[1][k] + x * w[2][k])
    [] Len(w) = 3 -> 4 * ((4 - x - y) * w[1][k] + x * w[2][k] + y * w[3][k])
    [] Len(w) = 4 -> (4 - x) * (4 - y) * w[1][k] + x * (4 - y) * w[2][k] + x * y * w[3][k] + (4 - x) * y * w[4][k]
Corners(m, cd, ix) ==
  CASE cd = 0 -> [k \in 1..Len(m.cells[ix + 1].v) |-> m.pts[m.cells[ix + 1].v[k] + 1]]
    [] cd = 1 -> <<m.pts[m.edges[ix + 1][1] + 1], m.pts[m.edges[ix + 1][2] + 1]>>
    [] cd = 2 -> <<m.pts[ix + 1]>>

(* ---- expressions --------------------------------------------------------------------- *)
RECURSIVE Value(_, _, _, _)
Value(m, E, e, q) ==
  LET x == E.pts[q][1] y == E.pts[q][2]
      w == Corners(m, E.cd, E.ix)
  IN CASE e.op = "leaf" -> Operand(e, E.ix + 3 * E.cd, x, y)
       [] e.op = "const" -> Operand(e, 0, 0, 0)
       [] e.op = "glob" -> Operand(e, 0, Map16(w, x, y, 1) + 70000, Map16(w, x, y, 2) + 70000)
       [] e.op = "add" -> Add(Value(m, E, e.a, q), Value(m, E, e.b, q))
       [] e.op = "sub" -> Sub(Value(m, E, e.a, q), Value(m, E, e.b, q))
       [] e.op = "mul" -> Mul(Value(m, E, e.a, q), Value(m, E, e.b, q))
       [] e.op = "neg" -> Neg(Value(m, E, e.a, q))
       [] e.op = "conj" -> Conj(Value(m, E, e.a, q))
       [] e.op = "tr" -> Tr(Value(m, E, e.a, q))
       [] e.op = "adj" -> Adj(Value(m, E, e.a, q))
       [] e.op = "sq" -> Sq(Value(m, E, e.a, q))
\* one value per point, equal to the expression there
EvOK(m, E) ==
  /\ Len(E.v) = Len(E.pts)
  /\ \A q \in 1..Len(E.pts) :
       LET w == Value(m, E, E.ex, q) v == E.v[q]
       IN v.k = w.k /\ v.r = w.r /\ v.c = w.c /\ v.x = w.x
===============================================================================
