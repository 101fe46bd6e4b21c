------------------------------ MODULE MeshUtils -------------------------------
(* Incidence counts, boundary flags and data attached to mesh entities.         *)
EXTENDS MeshOps, TLC

CellsOfEdge(m, i) == {c \in 1..Len(m.cells) : (i - 1) \in SetOf(m.cells[c].e)}
Undef == -999

NumEnt(m, k) == CASE k = 0 -> Len(m.cells) [] k = 1 -> Len(m.edges) [] k = 2 -> Len(m.pts)
\* number of entities of codimension k - r which contain entity i of codimension k
Super(m, k, r, i) ==
  CASE r = 0 -> 1
    [] k = 1 /\ r = 1 -> Cardinality(CellsOfEdge(m, i))
    [] k = 2 /\ r = 1 -> Cardinality({e \in 1..Len(m.edges) : (i-1) \in SetOf(m.edges[e])})
    [] k = 2 /\ r = 2 -> Cardinality({c \in 1..Len(m.cells) : (i-1) \in SetOf(m.cells[c].v)})
Pairs == << <<0,0>>, <<1,0>>, <<1,1>>, <<2,0>>, <<2,1>>, <<2,2>> >>
CountsOK(m, c) ==
  /\ Len(c) = 6
  /\ \A q \in 1..6 : c[q] = [i \in 1..NumEnt(m, Pairs[q][1]) |-> Super(m, Pairs[q][1], Pairs[q][2], i)]

BdEdges(m) == {i \in 1..Len(m.edges) : Cardinality(CellsOfEdge(m, i)) = 1}
BdNodes(m) == UNION {SetOf(m.edges[i]) : i \in BdEdges(m)}
F1(m) == LET B == TLCEval(BdEdges(m)) IN TLCEval([i \in 1..Len(m.edges) |-> IF i \in B THEN 1 ELSE 0])
F2(m) == LET B == TLCEval(BdNodes(m)) IN TLCEval([i \in 1..Len(m.pts) |-> IF (i-1) \in B THEN 1 ELSE 0])
Const(n, v) == [i \in 1..n |-> v]
FlagsOK(m, e) ==
  LET f1 == F1(m)
      f2 == F2(m) IN
  /\ e.b1 = << Const(Len(m.cells), Undef), f1, Const(Len(m.pts), Undef) >>
  /\ e.b2 = << Const(Len(m.cells), Undef), Const(Len(m.edges), Undef), f2 >>
  /\ e.ba = << Const(Len(m.cells), 0), f1, f2 >>

\* data sets: id -> per codimension sequence of values
NewOn(m, k, v) == [c \in 1..3 |-> Const(NumEnt(m, c-1), IF c - 1 = k THEN v ELSE Undef)]
NewAll(m, v) == [c \in 1..3 |-> Const(NumEnt(m, c-1), v)]
Put(d, k, i, v) == [d EXCEPT ![k+1][i+1] = v]

\* selection of entities whose center lies in the half plane a x + b y > c (the center is the mean of the
\* corners; a center exactly on the line may go either way)
CornersOf(m, k, i) == CASE k = 0 -> m.cells[i].v [] k = 1 -> m.edges[i] [] k = 2 -> << i - 1 >>
SideOf(m, k, i, a, b, c) ==
  LET q == CornersOf(m, k, i)
      S[j \in 0..Len(q)] == IF j = 0 THEN 0 ELSE S[j-1] + a * m.pts[q[j] + 1][1] + b * m.pts[q[j] + 1][2] - c
  IN S[Len(q)]
SelOK(m, e) == \A k \in 0..2 : Len(e.r[k+1]) = NumEnt(m, k) /\ \A i \in 1..NumEnt(m, k) :
  LET s == SideOf(m, k, i, e.a, e.b, e.c) IN (s > 0 => e.r[k+1][i] = 1) /\ (s < 0 => e.r[k+1][i] = 0)
===============================================================================
