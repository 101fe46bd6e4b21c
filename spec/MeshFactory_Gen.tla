--------------------------- MODULE MeshFactory_Gen ---------------------------
(* Model checking and behaviour generation for the mesh factory: all ways to   *)
(* enter a hybrid mesh of the unit squares of a small grid, with optional user *)
(* supplied edges, followed by Build; a faulty call may end the behaviour.     *)
(* hist is the sequence of calls made; finished behaviours are printed and     *)
(* replayed in the real code by the checks of P01 and P03.                     *)
EXTENDS MeshFactory, Json

CONSTANTS NX, NY, MaxEdges, Rounds, Faults, Check

VARIABLES conf,   \* per square: "Q" (quad), "D" or "U" (two triangles), "N" (nothing)
          pos,    \* position -> index of the node there (function on added positions)
          todo,   \* cells (vertex position tuples) still to be entered
          hist, rounds, fin
gvars == <<conf, pos, todo, hist, rounds, fin>>

Positions == (0..NX) \X (0..NY)
Squares == (0..(NX-1)) \X (0..(NY-1))
CellsOf(s, k) ==
  LET a == s
      b == <<s[1]+1, s[2]>>
      c == <<s[1]+1, s[2]+1>>
      d == <<s[1], s[2]+1>>
  IN CASE k = "Q" -> {<<a,b,c,d>>}
       [] k = "D" -> {<<a,b,c>>, <<a,c,d>>}
       [] k = "U" -> {<<a,b,d>>, <<b,c,d>>}
       [] OTHER -> {}
AllCells == UNION {CellsOf(s, conf[s]) : s \in Squares}
NeededPos == UNION {SetOf(v) : v \in AllCells}
Rot(v, k) == [i \in 1..Len(v) |-> v[((i - 1 + k) % Len(v)) + 1]]
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
Variants(v) == {Rot(v, k) : k \in 0..(Len(v)-1)} \cup {Rot(Rev(v), k) : k \in 0..(Len(v)-1)}
Idx(v) == [i \in 1..Len(v) |-> pos[v[i]]]
Added == DOMAIN pos

GInit == /\ FInit
         /\ conf \in {c \in [Squares -> {"Q", "D", "U", "N"}] : \E s \in Squares : c[s] # "N"}
         /\ pos = <<>> /\ hist = <<>> /\ rounds = 0 /\ fin = FALSE
         /\ todo = AllCells

Log(op, n, g) == hist' = Append(hist, [op |-> op, n |-> n, g |-> g])

GPoint == \E p \in NeededPos \ Added :
  /\ AddPoint(p, Len(pts))
  /\ pos' = (p :> Len(pts)) @@ pos
  /\ Log("P", p, 0)
  /\ UNCHANGED <<conf, todo, rounds, fin>>

GCell == \E v \in todo :
  /\ SetOf(v) \subseteq Added
  /\ \E w \in Variants(v), g \in {0, 1} :
       /\ AddCell(Idx(w), Len(uc))
       /\ Log(IF Len(w) = 3 THEN "T" ELSE "Q", Idx(w), g)
  /\ todo' = todo \ {v}
  /\ UNCHANGED <<conf, pos, rounds, fin>>

GEdge == /\ Len(ue) < MaxEdges
         /\ \E v \in AllCells : \E j \in 1..Len(v) :
              /\ SideSet(v, j) \subseteq Added
              /\ {pos[q] : q \in SideSet(v, j)} \notin UserSides
              /\ \E d \in {DirSide(v, j), Rev(DirSide(v, j))}, g \in {0, 1} :
                    AddEdge(Idx(d), g, Len(ue)) /\ Log("E", Idx(d), g)
         /\ UNCHANGED <<conf, pos, todo, rounds, fin>>

\* The mesh the library must produce, up to the numbering of created edges:
\* here numbered by an arbitrary fixed choice.
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE y \in S : TRUE IN Append(SetToSeq(S \ {x}), x)
TheMesh ==
  LET extra == SetToSeq(CellSides(uc) \ UserSides)
      pairOf(S) == LET a == CHOOSE x \in S : \A y \in S : x <= y
                       b == CHOOSE x \in S : \A y \in S : x >= y IN <<a, b>>
      edges == [i \in 1..Len(ue) |-> ue[i].n] \o [i \in 1..Len(extra) |-> pairOf(extra[i])]
      eix(S) == CHOOSE i \in 0..(Len(edges)-1) : SetOf(edges[i+1]) = S
  IN [pts |-> pts, edges |-> edges,
      cells |-> [c \in 1..Len(uc) |->
        [v |-> uc[c],
         e |-> [j \in 1..Len(uc[c]) |-> eix(SideSet(uc[c], j))],
         o |-> [j \in 1..Len(uc[c]) |->
                 IF edges[eix(SideSet(uc[c], j)) + 1][1] = uc[c][j] THEN 1 ELSE -1]]]]

GBuild == /\ todo = {}
          /\ Build(TheMesh, Check)
          /\ rounds' = rounds + 1
          /\ Log("B", <<>>, 0)
          /\ IF rounds + 1 >= Rounds
             THEN fin' = TRUE /\ UNCHANGED <<conf, pos, todo>>
             ELSE /\ fin' = FALSE /\ pos' = <<>> /\ todo' = AllCells /\ UNCHANGED conf

\* ---- one faulty call; the behaviour ends
FaultCalls ==
  LET np == Len(pts) IN
    {[op |-> "E", n |-> ue[i].n, g |-> 1] : i \in 1..Len(ue)}               \* duplicate, seen by Build
    \cup {[op |-> "E", n |-> Rev(ue[i].n), g |-> 1] : i \in 1..Len(ue)}
    \cup (IF np > 1 THEN {[op |-> "E", n |-> <<np-1, np-1>>, g |-> 0],
                          [op |-> "T", n |-> <<np, 0, 1>>, g |-> 0],
                          [op |-> "T", n |-> <<0, 1>>, g |-> 0],
                          [op |-> "Q", n |-> <<0, 1, np, 1>>, g |-> 0],
                          [op |-> "Q", n |-> <<0, 1, 0>>, g |-> 0],
                          [op |-> "T", n |-> <<0, 1, 0, 1>>, g |-> 0],
                          [op |-> "E", n |-> <<0, np>>, g |-> 0],
                          [op |-> "E", n |-> <<0, 1, 0>>, g |-> 0],
                          [op |-> "E", n |-> <<0>>, g |-> 0]} ELSE {})
    \cup {[op |-> "P", n |-> <<NX + 1, NY + 1>>, g |-> 0]}                  \* isolated node, seen by Build
    \cup {[op |-> "B", n |-> <<>>, g |-> 0]}
Bad(c) == CASE c.op = "B" -> ~Buildable(Check)
            [] OTHER -> TRUE
GFault == /\ Faults /\ ~fin
          /\ \E c \in FaultCalls : Bad(c) /\
               hist' = IF c.op = "B" THEN Append(hist, c)
                       ELSE hist \o <<c, [op |-> "B", n |-> <<>>, g |-> 0]>>
          /\ fin' = TRUE
          /\ UNCHANGED <<fvars, conf, pos, todo, rounds>>

GNext == \/ (~fin /\ (GPoint \/ GCell \/ GEdge \/ GBuild))
         \/ (GFault /\ (todo = {} \/ Len(hist) % 5 = 4))
GSpec == GInit /\ [][GNext]_<<fvars, gvars>>

\* every complete input admits a mesh, the mesh is coherent, and Euler's formula
\* bounds its edges
Inv == (todo = {} /\ ~fin /\ Complete) =>
          /\ Buildable(Check)
          /\ IsMeshOf(TheMesh, pts, ue, uc)
View == <<fvars, conf, pos, todo, rounds, fin>>
EmitB == fin => PrintT("BEH" \o ToJson(hist))
=============================================================================
