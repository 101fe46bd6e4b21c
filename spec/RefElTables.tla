----------------------------- MODULE RefElTables ------------------------------
(* Reference elements 0 point, 1 segment, 2 triangle, 3 quadrilateral as       *)
(* convex polytopes: everything is derived from the coordinates of the nodes   *)
(* and the convention that side j joins node j to the next node.               *)
EXTENDS Integers, Sequences, FiniteSets
RefEls == 0..3
Dim(k) == <<0, 1, 2, 2>>[k + 1]
Coords(k) == << << <<>> >>, << <<0>>, <<1>> >>, << <<0, 0>>, <<1, 0>>, <<0, 1>> >>,
                << <<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>> >> >>[k + 1]
NumNodes(k) == Len(Coords(k))
NodeSets(k, c) ==  \* sequence of node tuples (0-based) of the sub-entities of codimension c
  IF c = 0 THEN << [i \in 1..NumNodes(k) |-> i - 1] >>
  ELSE IF c = Dim(k) THEN [i \in 1..NumNodes(k) |-> <<i - 1>>]
  ELSE [i \in 1..NumNodes(k) |-> <<i - 1, i % NumNodes(k)>>]
SubEl(k, c) == IF c = 0 THEN k ELSE IF c = Dim(k) THEN 0 ELSE 1
\* index in k of sub-entity (rc, ri) of sub-entity (c, i), all 0-based
SubSub(k, c, i, rc, ri) ==
  LET n == NodeSets(k, c)[i + 1]
      local == NodeSets(SubEl(k, c), rc)[ri + 1]
      glob == [j \in 1..Len(local) |-> n[local[j] + 1]]
      cand == NodeSets(k, c + rc)
  IN (CHOOSE q \in 1..Len(cand) : {cand[q][j] : j \in 1..Len(cand[q])} = {glob[j] : j \in 1..Len(glob)}) - 1

Names == <<"NODE", "EDGE", "TRIA", "QUAD">>
AnswersOK(a) ==
  LET k == a.k
      b(x) == IF x THEN 1 ELSE 0
  IN /\ a.dim = Dim(k) /\ a.nn = NumNodes(k) /\ a.cp
     /\ a.name = Names[k + 1] /\ a.str = Names[k + 1] /\ a.fmt = Names[k + 1]
     /\ a.eq = [o \in 1..4 |-> b(o = k + 1)]
     /\ a.xd = Coords(k) /\ a.xs = Coords(k) /\ a.rows = Dim(k)
     /\ a.ns = [c \in 1..(Dim(k) + 1) |-> Len(NodeSets(k, c - 1))]
     /\ a.st = [c \in 1..(Dim(k) + 1) |-> [i \in 1..Len(NodeSets(k, c - 1)) |-> a.ids[SubEl(k, c - 1) + 1]]]
     \* ids tell the elements apart and are consecutive
     /\ a.id = a.ids[k + 1] /\ Cardinality({a.ids[i] : i \in 1..4}) = 4
     /\ \A i, j \in 1..4 : a.ids[i] - a.ids[j] <= 3
     \* printed coordinates: those of the nodes, at the highest level of detail
     /\ a.ps = [i \in 1..4 |-> IF i < 4 THEN <<>> ELSE IF k = 0 THEN <<>> ELSE a.ps[4]]
     /\ k > 0 => {a.ps[4][i] : i \in 1..Len(a.ps[4])} = {Coords(k)[i] : i \in 1..NumNodes(k)}
                  /\ Len(a.ps[4]) = NumNodes(k)
     \* printed sub-entities: one line each at levels above 10
     /\ a.pn = LET n == IF Dim(k) = 2 THEN 2 * NumNodes(k) ELSE IF k = 1 THEN 2 ELSE 0
               IN <<0, 0, n, n>>
     /\ a.ss = [c \in 1..(Dim(k) + 1) |-> [i \in 1..Len(NodeSets(k, c - 1)) |->
                 [rc \in 1..(Dim(SubEl(k, c - 1)) + 1) |->
                   [ri \in 1..Len(NodeSets(SubEl(k, c - 1), rc - 1)) |-> SubSub(k, c - 1, i - 1, rc - 1, ri - 1)]]]]

\* queries the documentation excludes are refused
Legal(k, q, a) ==
  LET nsub(kk, c) == IF c \in 0..Dim(kk) THEN Len(NodeSets(kk, c)) ELSE 0
  IN CASE q = "num" -> a[1] \in 0..Dim(k)
       [] q = "sub" -> a[1] \in 0..Dim(k) /\ a[2] < nsub(k, a[1])
       [] q = "subsub" -> /\ a[1] \in 0..Dim(k) /\ a[2] < nsub(k, a[1])
                          /\ a[3] \in 0..Dim(SubEl(k, a[1])) /\ a[4] < nsub(SubEl(k, a[1]), a[3])
Value(k, q, a) ==
  CASE q = "num" -> Len(NodeSets(k, a[1]))
    [] q = "sub" -> SubEl(k, a[1])
    [] q = "subsub" -> SubSub(k, a[1], a[2], a[3], a[4])
===============================================================================
