------------------------------- MODULE VtkModel -------------------------------
(* Part "points": for every order up to MaxOrder the lists of Lagrange points   *)
(* are complete, free of duplicates and traverse the sides as VTK requires, and *)
(* the grid written for two cells with a common edge, in all relative positions *)
(* and orientations, meets GridOK while grids with a defect do not.              *)
(* Part "writer": sequences of operations on a writer; they are printed and     *)
(* replayed in the real code.                                                    *)
EXTENDS VtkFile, Json
CONSTANTS Part, MaxOrder, MaxOps
VARIABLES n, mesh, w, open, hist
None == [pts |-> <<>>]
vars == <<n, mesh, w, open, hist>>

--------------------------------------------------------------------------------
Pick(S) == {RandomElement(S)}
Rot(s, k) == [i \in 1..Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* a triangle and a quadrilateral on five nodes with the common edge 1-2
P5 == << <<0,0>>, <<12,2>>, <<10,14>>, <<24,0>>, <<26,12>> >>
Tri == <<0, 1, 2>>
Quad == <<1, 3, 4, 2>>
EdgeSets == << {0,1}, {1,2}, {0,2}, {1,3}, {3,4}, {2,4} >>
Sides(v) == [s \in 1..Len(v) |-> {v[s], v[(s % Len(v)) + 1]}]
EdgeNo(S) == CHOOSE i \in 1..6 : EdgeSets[i] = S
Coord(v) == [i \in 1..Len(v) |-> P5[v[i] + 1]]
Mesh(t, q, fl) ==
  LET ends(i) == LET a == CHOOSE x \in EdgeSets[i] : \A y \in EdgeSets[i] : x <= y
                     b == CHOOSE x \in EdgeSets[i] : \A y \in EdgeSets[i] : x >= y
                 IN IF i \in fl THEN <<b, a>> ELSE <<a, b>>
      cell(v) == [v |-> v, e |-> [s \in 1..Len(v) |-> EdgeNo(Sides(v)[s]) - 1],
                  o |-> [s \in 1..Len(v) |-> IF ends(EdgeNo(Sides(v)[s]))[1] = v[s] THEN 1 ELSE -1]]
      ed == [i \in 1..6 |-> ends(i)]
  IN [pts |-> P5, edges |-> ed, cells |-> <<cell(t), cell(q)>>,
      ge |-> [i \in 1..6 |-> [k |-> 1, nv |-> 2, n |-> Coord(ed[i])]],
      gc |-> << [k |-> 1, nv |-> 3, n |-> Coord(t)], [k |-> 1, nv |-> 4, n |-> Coord(q)] >>]

\* the grid as VtkWriter lays it out: nodes, points of the edges, of the cells
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
Grid(m, k) ==
  LET inner(i) == LET R == Points(m.gc[i].nv, k)
                      nv == m.gc[i].nv
                  IN SubSeq(R, nv + nv * (k - 1) + 1, Len(R))
      ePts == [i \in 1..6 |-> [j \in 1..k-1 |-> Image(m.ge[i], k, <<j, 0>>)]]
      cPts == [i \in 1..2 |-> [j \in 1..Len(inner(i)) |-> Image(m.gc[i], k, inner(i)[j])]]
      eOff(i) == 5 + (i - 1) * (k - 1)
      cOff(i) == 5 + 6 * (k - 1) + (IF i = 2 THEN Len(inner(1)) ELSE 0)
      side(c, s) == LET e == m.cells[c].e[s] + 1
                        fwd == (m.cells[c].o[s] = 1) = ~(m.gc[c].nv = 4 /\ s > 2)
                    IN [j \in 1..k-1 |-> eOff(e) + (IF fwd THEN j - 1 ELSE k - 1 - j)]
      k3 == k * k * k
  IN [pts |-> [i \in 1..5 |-> <<k3 * P5[i][1], k3 * P5[i][2], 0>>] \o Cat(ePts, 6) \o Cat(cPts, 2),
      cells |-> [c \in 1..2 |-> m.cells[c].v \o Cat([s \in 1..m.gc[c].nv |-> side(c, s)], m.gc[c].nv)
                                \o [j \in 1..Len(inner(c)) |-> cOff(c) + j - 1]],
      types |-> [c \in 1..2 |-> Type(m.gc[c].nv, k)]]

--------------------------------------------------------------------------------
Lattice(nv, k) == CASE nv = 2 -> {<<i, 0>> : i \in 0..k}
                    [] nv = 3 -> {p \in (0..k) \X (0..k) : p[1] + p[2] <= k}
                    [] nv = 4 -> (0..k) \X (0..k)
PointsOK ==
  \A nv \in {2, 3, 4} :
    LET R == Points(nv, n)
    IN /\ {R[i] : i \in DOMAIN R} = Lattice(nv, n)
       /\ Len(R) = Cardinality(Lattice(nv, n))
       /\ nv > 2 => Len(R) = nv + nv * (n - 1) + Inner(nv, n)
       \* points of side s lie on side s
       /\ nv > 2 => \A s \in 1..nv : \A j \in SidePos(nv, n, s) :
            LET a == R[s]
                b == R[(s % nv) + 1]
            IN (b[1] - a[1]) * (R[j][2] - a[2]) = (b[2] - a[2]) * (R[j][1] - a[1])
       \* shape functions: partition of unity, reproduce the reference element
       /\ \A k \in {1, 2} : \A i \in DOMAIN R :
            LET s == Shape(nv, k, n, R[i][1], R[i][2])
                RECURSIVE T(_)
                T(j) == IF j = 0 THEN 0 ELSE s[j] + T(j - 1)
            IN T(Len(s)) = n * n * n

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
GridsOK ==
  Part = "points" /\ mesh # None =>
    LET F == TLCEval(Grid(mesh, n))
    IN /\ GridOK(mesh, 0, n, F)
       \* defects are noticed: exchanged nodes, a wrong type, a moved or a missing point
       /\ n <= 4 => \A c \in 1..2 : \A i, j \in DOMAIN F.cells[c] : i < j =>
             ~GridOK(mesh, 0, n, [F EXCEPT !.cells[c] = Swap(@, i, j)])
       /\ ~GridOK(mesh, 0, n, [F EXCEPT !.types[1] = 7])
       /\ \A i \in DOMAIN F.pts : ~GridOK(mesh, 0, n, [F EXCEPT !.pts[i][1] = @ + 1])
       /\ ~GridOK(mesh, 0, n, [F EXCEPT !.pts = SubSeq(@, 1, Len(@) - 1)])

--------------------------------------------------------------------------------
(* operations of the writer; lines for the driver                               *)
Names == {"a", "b", "a%20b"}
Clean(s) == IF s = "a%20b" THEN "a b" ELSE s
S(x) == ToString(x)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Join(Tail(q))
Count(kind) == IF kind = "p" THEN 5 ELSE IF w.codim = 0 THEN 2 ELSE 6
RandSeq(k, T) == [i \in 1..k |-> RandomElement(T)]
Log(x) == hist' = Append(hist, x)
OpenOp == ~open /\ \E k \in Pick(1..MaxOrder), cd \in Pick({0, 0, 1}) :
  n' = k /\ open' = TRUE /\ w' = NewWriter(cd, k) /\ UNCHANGED mesh /\ Log("open " \o S(cd) \o " " \o S(k))
BinOp == open /\ \E b \in Pick({0, 1}) : w' = [w EXCEPT !.bin = (b = 1)] /\ UNCHANGED <<n, mesh, open>> /\ Log("bin " \o S(b))
GlobalOp == open /\ \E nm \in Pick(Names), t \in Pick({"int", "float", "double"}), k \in Pick(0..3) :
  LET v == TLCEval([i \in 1..k |-> S(RandomElement(-5..9))])
  IN /\ w' = IF NameOK(w.fd, Clean(nm)) THEN AddGlobal(w, [name |-> Clean(nm), type |-> t, v |-> v]) ELSE w
     /\ UNCHANGED <<n, mesh, open>> /\ Log("gd " \o t \o " " \o nm \o " 1" \o Join(v))
FctOp == open /\ \E nm \in Pick(Names), t \in Pick({"int", "double", "v2d", "v3f", "char"}), kind \in Pick({"p", "c"}) :
  LET rows == CASE t = "v2d" -> 2 [] t = "v3f" -> 3 [] OTHER -> 1
      k == TLCEval([i \in 1..4 |-> RandomElement(-3..5)])
      L == IF kind = "p" THEN w.pd ELSE w.cd
      e == [name |-> Clean(nm), type |-> t, kind |-> kind, rows |-> rows, k |-> k]
  IN /\ w' = IF NameOK(L, Clean(nm)) THEN AddFunction(w, e) ELSE w
     /\ UNCHANGED <<n, mesh, open>>
     /\ Log("mf " \o kind \o " " \o t \o " " \o nm \o " " \o S(rows) \o Join([i \in 1..4 |-> S(k[i])]))
SetOp == open /\ \E nm \in Pick(Names), t \in Pick({"int", "uchar", "float", "v2f", "vXd"}), kind \in Pick(IF w.order = 1 THEN {"p", "c"} ELSE {"c"}) :
  LET rows == CASE t = "v2f" -> 2 [] t = "vXd" -> 4 [] OTHER -> 1
      c == Count(kind)
      u == [i \in 1..rows |-> S(RandomElement(0..9))]
      m == TLCEval(RandSeq(c, {0, 1}))
      v == TLCEval([i \in 1..(c * rows) |-> S(RandomElement(0..99))])
      L == IF kind = "p" THEN w.pd ELSE w.cd
      e == [name |-> Clean(nm), type |-> t, kind |-> kind, rows |-> rows, undef |-> TLCEval(u), mask |-> m, v |-> v]
  IN /\ w' = IF NameOK(L, Clean(nm)) THEN AddSet(w, e) ELSE w
     /\ UNCHANGED <<n, mesh, open>>
     /\ Log("md " \o kind \o " " \o t \o " " \o nm \o " 1 " \o S(rows) \o " " \o S(rows) \o Join(e.undef)
            \o " " \o S(c) \o Join([i \in 1..c |-> S(m[i])]) \o Join(v))
CloseOp == open /\ open' = FALSE /\ UNCHANGED <<n, mesh, w>> /\ Log("close")

Init == /\ w = NewWriter(0, 1) /\ open = FALSE
        /\ \/ /\ Part = "points" /\ n \in 1..MaxOrder /\ mesh = None
              /\ \E r \in 0..2, a \in BOOLEAN, fl \in {{}, {2}, {1,3,5}, {2,4,6}, 1..6} :
                   hist = <<IF a THEN Rot(Rev(Tri), r) ELSE Rot(Tri, r), fl>>
           \/ Part = "writer" /\ n = 1 /\ mesh = Mesh(Tri, Quad, {}) /\ hist = <<>>
Choose == /\ Part = "points" /\ mesh = None /\ UNCHANGED <<n, w, open, hist>>
          /\ \E q \in 0..3, b \in BOOLEAN : mesh' = Mesh(hist[1], IF b THEN Rot(Rev(Quad), q) ELSE Rot(Quad, q), hist[2])
Next == \/ Choose
        \/ Part = "writer" /\ Len(hist) < MaxOps
           /\ (OpenOp \/ BinOp \/ GlobalOp \/ FctOp \/ SetOp \/ (Len(hist) > 3 /\ CloseOp))
Spec == Init /\ [][Next]_vars
NamesUnique ==
  /\ \A L \in {w.fd, w.pd, w.cd} : \A i, j \in DOMAIN L : (i # j => L[i].name # L[j].name) /\ ~HasBlank(L[i].name)
SizesOK == \A i \in DOMAIN w.pd : w.pd[i].src = "set" => w.order = 1 /\ Len(w.pd[i].e.mask) = 5
EmitB == (Part = "writer" /\ Len(hist) = MaxOps) => PrintT("BEH" \o ToJson(IF open THEN Append(hist, "close") ELSE hist))
===============================================================================
