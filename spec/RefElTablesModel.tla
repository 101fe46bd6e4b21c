--------------------------- MODULE RefElTablesModel ---------------------------
(* Consistency of the tables themselves, for every reference element:          *)
EXTENDS RefElTables
VARIABLE el
Init == el \in RefEls
Next == UNCHANGED el
Spec == Init /\ [][Next]_el
Sub(kk, c, i) == NodeSets(kk, c)[i + 1]
\* sub-entities of sub-entities are the same however they are reached
Transitive ==
  \A c \in 0..Dim(el) : \A i \in 0..(Len(NodeSets(el, c)) - 1) :
    LET s == SubEl(el, c)
    IN \A rc \in 0..Dim(s) : \A ri \in 0..(Len(NodeSets(s, rc)) - 1) :
         LET j == SubSub(el, c, i, rc, ri)
         IN /\ j \in 0..(Len(NodeSets(el, c + rc)) - 1)
            /\ SubEl(el, c + rc) = SubEl(s, rc)
            /\ \A r2 \in 0..Dim(SubEl(s, rc)) : \A q \in 0..(Len(NodeSets(SubEl(s, rc), r2)) - 1) :
                 \* through the sub-sub-entity or directly: same node set
                 LET x == SubSub(el, c + rc, j, r2, q)
                     y == SubSub(el, c, i, rc + r2, SubSub(s, rc, ri, r2, q))
                 IN (r2 = 0 \/ rc = 0) => x = y
\* consecutive nodes run around the element counter-clockwise
CounterClockwise ==
  Dim(el) = 2 => \A i \in 1..NumNodes(el) :
    LET p == Coords(el)
        n == NumNodes(el)
        a == p[i]
        b == p[(i % n) + 1]
        c == p[((i + 1) % n) + 1]
    IN (b[1] - a[1]) * (c[2] - b[2]) - (b[2] - a[2]) * (c[1] - b[1]) > 0
Distinct == \A i, j \in 1..NumNodes(el) : i # j => Coords(el)[i] # Coords(el)[j]
Euler == Dim(el) = 2 => Len(NodeSets(el, 1)) = Len(NodeSets(el, 2))
===============================================================================
