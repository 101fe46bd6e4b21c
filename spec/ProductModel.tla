------------------------------ MODULE ProductModel -----------------------------
(* Exhaustive model: a product space is built component by component on two     *)
(* cells sharing a side; at every stage the joint numbering must be a           *)
(* partition, invertible and consistent between entities.                       *)
EXTENDS ProductSpace, TLC
CONSTANTS MaxComp, MaxCnt
VARIABLES m, lays
vars == <<m, lays>>
Tri == <<0, 1, 2>>
Quad == <<2, 1, 3, 4>>
Flip(e, S, i) == IF i \in S THEN <<e[2], e[1]>> ELSE e
MeshOf(S) ==
  LET b == <<<<0, 1>>, <<1, 2>>, <<0, 2>>, <<1, 3>>, <<3, 4>>, <<2, 4>>>>
      ed == [i \in 1..6 |-> Flip(b[i], S, i)]
      cell(v, e) == [v |-> v, e |-> e, o |-> [j \in 1..Len(v) |-> IF ed[e[j] + 1][1] = v[j] THEN 1 ELSE -1]]
  IN [pts |-> [i \in 1..5 |-> <<0, 0>>], edges |-> ed, cells |-> <<cell(Tri, <<0, 1, 2>>), cell(Quad, <<1, 3, 4, 5>>)>>]
LayS == {<<a, b, c, d>> : a \in 0..1, b \in 0..MaxCnt, c \in 0..1, d \in {0, 2}}
Init == /\ \E S \in {{}, {2}, {2, 3}, {1, 2, 3, 4, 5, 6}} : m = MeshOf(S)
        /\ lays = <<>>
AddComp == /\ Len(lays) < MaxComp
           /\ \E y \in LayS : lays' = Append(lays, y)
           /\ UNCHANGED m
Next == AddComp
Spec == Init /\ [][Next]_vars

T == [c \in 1..Len(lays) |-> Table(m, Layout(m, lays[c]), TRUE)]
Joint == lays # <<>> =>
  LET tt == T
      P == ProdTable(m, tt)
      off == Offs(tt)
  IN \* every index is owned by exactly one entity
     /\ UNION {UNION {SetOf(P.in[k1][i]) : i \in 1..NumEnt(m, k1 - 1)} : k1 \in 1..3} = 0..(P.n - 1)
     /\ SumOf([i \in 1..3 |-> SumOf([j \in 1..NumEnt(m, i - 1) |-> Len(P.in[i][j])])]) = P.n
     \* no index twice in a local list
     /\ \A k1 \in 1..3 : \A i \in 1..NumEnt(m, k1 - 1) : Cardinality(SetOf(P.g[k1][i])) = Len(P.g[k1][i])
     \* the part of component c sits at its local start and translates by the offset
     /\ \A k1 \in 1..3 : \A i \in 1..NumEnt(m, k1 - 1) : \A c \in 1..Len(tt) :
          LET st == PStart(tt, k1, i)
              part == SubSeq(P.g[k1][i], st[c] + 1, st[c + 1])
          IN /\ \A j \in 1..Len(part) : CompOf(off, part[j]) = c - 1
             /\ [j \in 1..Len(part) |-> part[j] - off[c]] = tt[c].g[k1][i]
     \* dofs of an edge are dofs of the cell
     /\ \A c \in 1..2 : \A j \in 1..Len(m.cells[c].v) : SetOf(P.g[2][m.cells[c].e[j] + 1]) \subseteq SetOf(P.g[1][c])
\* adding a component leaves the numbers of the others alone
Stable == [][lays # <<>> =>
   LET a == Offs(T)
       b == Offs([c \in 1..Len(lays') |-> Table(m, Layout(m, lays'[c]), TRUE)])
   IN SubSeq(b, 1, Len(a)) = a]_vars
===============================================================================
