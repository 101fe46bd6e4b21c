------------------------------ MODULE GmshModel -------------------------------
(* Small Gmsh files written step by step: nodes with arbitrary tags in         *)
(* arbitrary order, then points, lines and triangles in arbitrary order with   *)
(* arbitrary groups. Both formats are shown to say the same about a file:      *)
(* encoding a description and giving meaning to the encoding are inverse. The  *)
(* files are replayed through the reader in every byte encoding.               *)
EXTENDS GmshFile, Json
CONSTANTS Tags, NumN, MaxEls, Groups, Emit
VARIABLES d, done
vars == <<pts, ue, uc, d, done>>

Pos(i) == <<8 * i * i, 8 * i>>   \* no three points on a line
TagOf(i) == d.nodes[i].t
TagSet == {d.nodes[i].t : i \in 1..Len(d.nodes)}
Init == FInit /\ d = [nodes |-> <<>>, els |-> <<>>, names |-> <<>>] /\ done = FALSE

AddNode(t) == /\ ~done /\ d.els = <<>> /\ Len(d.nodes) < NumN /\ t \notin TagSet
              /\ d' = [d EXCEPT !.nodes = Append(@, [t |-> t, x |-> Pos(Len(@) + 1)])]
GroupSeqs == {<<g>> : g \in Groups} \cup {<<g, h>> : g \in Groups, h \in Groups}
SameEl(e, k, n) == e.k = k /\ {e.n[j] : j \in 1..NumCorners(k)} = {n[j] : j \in 1..NumCorners(k)}
Fresh(k, n) == \A i \in 1..Len(d.els) : ~SameEl(d.els[i], k, n) /\ ~(ElDim(k) = 2 /\ ElDim(d.els[i].k) = 2)
                  /\ ~(ElDim(k) = 1 /\ ElDim(d.els[i].k) = 1
                       /\ {d.els[i].n[1], d.els[i].n[2]} = {n[1], n[2]})
AddEl(k, n, g) == /\ ~done /\ Len(d.nodes) = NumN /\ Len(d.els) < MaxEls
                  /\ Cardinality(SetOf(n)) = Len(n) /\ Fresh(k, n)
                  /\ d' = [d EXCEPT !.els = Append(@, [k |-> k, n |-> n, ph |-> g])]
HasCell == \E i \in 1..Len(d.els) : ElDim(d.els[i].k) = 2
Finish == ~done /\ HasCell /\ done' = TRUE /\ UNCHANGED d
Next == /\ UNCHANGED <<pts, ue, uc>>
        /\ \/ (\E t \in Tags : AddNode(t)) /\ UNCHANGED done
           \/ (\E g \in GroupSeqs :
                 \/ \E a \in TagSet : AddEl(15, <<a>>, g)
                 \/ \E a, b \in TagSet : AddEl(1, <<a, b>>, g)
                 \/ \E a, b, c \in TagSet : AddEl(2, <<a, b, c>>, g)) /\ UNCHANGED done
           \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- encodings ---------------------------------------------------------------
Enc2 == [v |-> 2, nodes |-> d.nodes, names |-> d.names,
         els |-> LET raw == Concat([i \in 1..Len(d.els) |->
                              [j \in 1..Len(d.els[i].ph) |->
                                 [k |-> d.els[i].k, n |-> d.els[i].n, ph |-> d.els[i].ph[j]]]])
                 IN [i \in 1..Len(raw) |-> [t |-> i, k |-> raw[i].k, n |-> raw[i].n, ph |-> raw[i].ph,
                                            el |-> 1, part |-> <<>>]]]
Ent4(dim) == LET s == ElsOfDim(d, dim) IN [i \in 1..Len(s) |-> [t |-> i, ph |-> s[i].ph, bd |-> <<>>]]
EntOf(i) == Cardinality({j \in 1..i : ElDim(d.els[j].k) = ElDim(d.els[i].k)})
Enc4 == [v |-> 4, names |-> d.names, pents |-> <<>>,
         ents |-> <<Ent4(0), Ent4(1), Ent4(2), <<>>>>,
         nblocks |-> <<[d |-> 2, t |-> 1, nodes |-> d.nodes]>>,
         eblocks |-> [i \in 1..Len(d.els) |-> [k |-> d.els[i].k, t |-> EntOf(i),
                                               els |-> <<[t |-> i, n |-> d.els[i].n]>>]]]

InRangeOf(n, k) == SetOf(n) \subseteq 0..(k - 1)
Same(D1, D2) == /\ MeshOfFile(D1) = MeshOfFile(D2)
                /\ \A c \in 0..2 : LET G == GroupsOfMesh(D1, c)
                                       H == GroupsOfMesh(D2, c)
                                   IN Len(G) = Len(H) /\ \A i \in 1..Len(G) : SameBag(G[i], H[i])
RoundTrip == done => Same(Desc2(Enc2), d) /\ Same(Desc4(Enc4), d)
\* every node of a cell or line is a node of the mesh, exactly once, in file order
OwnNodes == done => /\ Len(MainNodes(d)) = Cardinality(MainTags(d))
                    /\ \A i \in 1..Len(MeshOfFile(d).cs) : InRangeOf(MeshOfFile(d).cs[i].n, Len(MainNodes(d)))
Chk == IF \A i \in 1..Len(d.els) : ElDim(d.els[i].k) # 1 \/
            \E j \in 1..Len(d.els) : ElDim(d.els[j].k) = 2 /\ SetOf(d.els[i].n) \subseteq SetOf(d.els[j].n)
       THEN 1 ELSE 0
Out == (done /\ Emit) => PrintT("BEH" \o ToJson([f2 |-> Enc2, f4 |-> Enc4, chk |-> Chk]))
===============================================================================
