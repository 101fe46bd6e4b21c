------------------------------- MODULE DofModel -------------------------------
(* Exhaustive model of dof numbering: a state machine which walks over nodes,   *)
(* edges and cells and hands out indices, checked against the contract of        *)
(* DofHandler.tla and against the guarantees users rely on, for all edge         *)
(* directions and dof counts of two cells sharing a side.                        *)
EXTENDS DofHandler, TLC, Json
CONSTANTS MaxCnt, Kind   \* Kind: 1 two triangles, 2 triangle and quadrilateral

VARIABLES m, lay, chk, next, owned, todo
vars == <<m, lay, chk, next, owned, todo>>

V1 == <<0, 1, 2>>
V2 == IF Kind = 1 THEN {<<2, 1, 3>>, <<1, 2, 3>>} ELSE {<<2, 1, 3, 4>>, <<4, 2, 1, 3>>, <<1, 2, 4, 3>>}
Base(v2) == {SetOf(DirSide(V1, j)) : j \in 1..3} \cup {SetOf(DirSide(v2, j)) : j \in 1..Len(v2)}
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
MeshWith(v2, flip) ==
  LET es == SeqOf(Base(v2))
      ed == [i \in 1..Len(es) |-> IF i \in flip THEN <<Hi(es[i]), Lo(es[i])>> ELSE <<Lo(es[i]), Hi(es[i])>>]
      ix(S) == (CHOOSE i \in 1..Len(es) : es[i] = S) - 1
      cell(v) == [v |-> v, e |-> [j \in 1..Len(v) |-> ix(SideSet(v, j))],
                  o |-> [j \in 1..Len(v) |-> IF ed[ix(SideSet(v, j)) + 1][1] = v[j] THEN 1 ELSE -1]]
  IN [pts |-> [i \in 1..(Len(v2) + 1) |-> <<0, 0>>], edges |-> ed, cells |-> <<cell(V1), cell(v2)>>]

Order(mm) == [i \in 1..Len(mm.pts) |-> <<2, i - 1>>] \o [i \in 1..Len(mm.edges) |-> <<1, i - 1>>]
             \o [i \in 1..Len(mm.cells) |-> <<0, i - 1>>]
Init == /\ \E v2 \in V2 : \E flip \in SUBSET (1..Cardinality(Base(v2))) : m = MeshWith(v2, flip)
        /\ lay \in (0..MaxCnt) \X (0..MaxCnt) \X (0..1) \X (0..1)
        /\ chk \in BOOLEAN
        /\ next = 0 /\ owned = <<>> /\ todo = Order(m)
Cnt == Layout(m, lay)
Step == /\ todo # <<>>
        /\ LET k == todo[1][1]
               i == todo[1][2]
               c == Cnt[k + 1][i + 1]
           IN /\ owned' = (<<k, i>> :> [j \in 1..c |-> next + j - 1]) @@ owned
              /\ next' = next + c
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<m, lay, chk>>
Next == Step
Spec == Init /\ [][Next]_vars

T == Table(m, Cnt, chk)
\* part of the local list of cell c which belongs to the interior of side j
SidePart(c, j) ==
  LET nv == Len(m.cells[c].v)
      o == nv * lay[1] + (j - 1) * lay[2]
  IN SubSeq(T.g[1][c], o + 1, o + lay[2])
AlongEdge(c, j) ==
  IF m.edges[m.cells[c].e[j] + 1][1] = m.cells[c].v[j] THEN SidePart(c, j) ELSE Rev(SidePart(c, j))
Done == todo = <<>>
Contract == Done =>
  /\ next = T.n
  /\ \A k1 \in 1..3 : \A i \in 1..NumEnt(m, k1 - 1) : owned[<<k1 - 1, i - 1>>] = T.in[k1][i]
  \* every index owned exactly once
  /\ UNION {UNION {SetOf(T.in[k1][i]) : i \in 1..NumEnt(m, k1 - 1)} : k1 \in 1..3} = 0..(T.n - 1)
  \* no index twice in a local list
  /\ \A k1 \in 1..3 : \A i \in 1..NumEnt(m, k1 - 1) : Cardinality(SetOf(T.g[k1][i])) = Len(T.g[k1][i])
  \* both cells see the interior dofs of a shared side in the same order along the edge
  /\ chk => \A c \in 1..2 : \A j \in 1..Len(m.cells[c].v) :
        AlongEdge(c, j) = T.in[2][m.cells[c].e[j] + 1]
  /\ ~chk => \A c \in 1..2 : \A j \in 1..Len(m.cells[c].v) :
        SidePart(c, j) = T.in[2][m.cells[c].e[j] + 1]
  \* dofs of an edge are the dofs the cell has on that side
  /\ \A c \in 1..2 : \A j \in 1..Len(m.cells[c].v) :
        SetOf(T.g[2][m.cells[c].e[j] + 1]) \subseteq SetOf(T.g[1][c])
Prog == next <= T.n
===============================================================================
