-------------------------------- MODULE RefPat --------------------------------
(* Refinement patterns of the reference elements. Points are pairs of lattice  *)
(* coordinates, the reference element has side length 12.                      *)
EXTENDS Integers, Sequences, FiniteSets

Patterns(nv) == CASE nv = 1 -> {"nil", "copy"}
                  [] nv = 2 -> {"nil", "copy", "split"}
                  [] nv = 3 -> {"nil", "copy", "bisect", "trisect", "trisect_left", "quadsect", "regular", "barycentric"}
                  [] nv = 4 -> {"nil", "copy", "split", "bisect", "trisect", "quadsect", "threeedge", "regular", "barycentric"}
NeedsAnchor(nv, p) == p \in {"bisect", "trisect", "trisect_left", "quadsect", "threeedge"} \/ (nv = 4 /\ p = "split")

Corner(nv, k) == (CASE nv = 2 -> <<<<0,0>>, <<12,0>>>>
                    [] nv = 3 -> <<<<0,0>>, <<12,0>>, <<0,12>>>>
                    [] nv = 4 -> <<<<0,0>>, <<12,0>>, <<12,12>>, <<0,12>>>>)[(k % nv) + 1]
Mid(nv, k) == (CASE nv = 2 -> <<<<6,0>>, <<6,0>>>>
                 [] nv = 3 -> <<<<6,0>>, <<6,6>>, <<0,6>>>>
                 [] nv = 4 -> <<<<6,0>>, <<12,6>>, <<6,12>>, <<0,6>>>>)[(k % nv) + 1]
Ctr(nv) == IF nv = 3 THEN <<4,4>> ELSE <<6,6>>

\* sides (0-based numbers) which a pattern splits
SplitSides(nv, p, a) ==
  CASE p \in {"nil", "copy"} -> {}
    [] p \in {"regular", "barycentric"} -> 0..(nv - 1)
    [] nv = 3 /\ p = "bisect" -> {a}
    [] nv = 3 /\ p = "trisect" -> {a, (a + 1) % 3}
    [] nv = 3 /\ p = "trisect_left" -> {a, (a + 2) % 3}
    [] nv = 3 /\ p = "quadsect" -> {0, 1, 2}
    [] nv = 4 /\ p = "trisect" -> {a}
    [] nv = 4 /\ p = "quadsect" -> {a, (a + 1) % 4}
    [] nv = 4 /\ p \in {"bisect", "split"} -> {a, (a + 2) % 4}
    [] nv = 4 /\ p = "threeedge" -> {a, (a + 1) % 4, (a + 3) % 4}

\* the child cells (as a set; vertex sequences)
Children(nv, p, a) ==
  LET v(k) == Corner(nv, a + k)
      m(k) == Mid(nv, a + k)
      c == Ctr(nv)
  IN CASE p = "nil" -> {}
       [] p = "copy" -> {[k \in 1..nv |-> Corner(nv, k - 1)]}
       [] nv = 3 /\ p = "bisect" -> {<<v(0), m(0), v(2)>>, <<m(0), v(1), v(2)>>}
       [] nv = 3 /\ p = "trisect" -> {<<v(0), m(0), v(2)>>, <<m(0), v(1), m(1)>>, <<m(0), m(1), v(2)>>}
       [] nv = 3 /\ p = "trisect_left" -> {<<v(0), m(0), m(2)>>, <<m(0), v(2), m(2)>>, <<m(0), v(1), v(2)>>}
       [] nv = 3 /\ p = "quadsect" -> {<<v(0), m(0), m(2)>>, <<m(0), v(2), m(2)>>, <<m(0), v(1), m(1)>>, <<m(0), m(1), v(2)>>}
       [] nv = 3 /\ p = "regular" -> {<<v(k), m(k), m(k + 2)>> : k \in 0..2} \cup {<<m(0), m(1), m(2)>>}
       [] nv = 3 /\ p = "barycentric" -> {<<v(k), m(k), c>> : k \in 0..2} \cup {<<v(k + 1), c, m(k)>> : k \in 0..2}
       [] nv = 4 /\ p = "trisect" -> {<<v(0), m(0), v(3)>>, <<m(0), v(1), v(2)>>, <<m(0), v(2), v(3)>>}
       [] nv = 4 /\ p = "quadsect" -> {<<v(0), m(0), v(3)>>, <<m(0), v(1), m(1)>>, <<m(1), v(2), v(3)>>, <<m(0), m(1), v(3)>>}
       [] nv = 4 /\ p \in {"bisect", "split"} -> {<<v(0), m(0), m(2), v(3)>>, <<m(0), v(1), v(2), m(2)>>}
       [] nv = 4 /\ p = "threeedge" -> {<<v(2), v(3), m(3), m(1)>>, <<v(0), m(0), m(3)>>, <<v(1), m(0), m(1)>>, <<m(0), m(1), m(3)>>}
       [] nv = 4 /\ p \in {"regular", "barycentric"} -> {<<v(k), m(k), c, m(k + 3)>> : k \in 0..3}

\* a polygon up to choice of first vertex and direction: its set of sides
Side(q, i) == {q[i], q[(i % Len(q)) + 1]}
Outline(q) == {Side(q, i) : i \in 1..Len(q)}

(* ---- geometry of lattice polygons ---------------------------------------- *)
Cross(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
RECURSIVE Area2R(_, _)
Area2R(q, i) == IF i < 2 THEN 0 ELSE Cross(q[1], q[i], q[(i % Len(q)) + 1]) + Area2R(q, i - 1)
Area2(q) == LET x == Area2R(q, Len(q)) IN IF x < 0 THEN -x ELSE x
Convex(q) ==
  LET t(i) == Cross(q[i], q[(i % Len(q)) + 1], q[((i + 1) % Len(q)) + 1])
  IN (\A i \in 1..Len(q) : t(i) > 0) \/ (\A i \in 1..Len(q) : t(i) < 0)
InRef(nv, L, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] <= L /\ p[2] <= L /\ (nv = 3 => p[1] + p[2] <= L)
OnSide(nv, L, k, p) == \* on side k of the reference element
  IF nv = 3 THEN CASE k = 0 -> p[2] = 0 [] k = 1 -> p[1] + p[2] = L [] k = 2 -> p[1] = 0
  ELSE CASE k = 0 -> p[2] = 0 [] k = 1 -> p[1] = L [] k = 2 -> p[2] = L [] k = 3 -> p[1] = 0
OnBd(nv, L, s) == \E k \in 0..(nv - 1) : \A p \in s : OnSide(nv, L, k, p)
RECURSIVE SumArea(_)
SumArea(Q) == IF Q = <<>> THEN 0 ELSE Area2(Head(Q)) + SumArea(Tail(Q))
\* p and q on opposite sides of the segment s = {x,y}: the far vertices
Opposite(p, q, s) ==
  LET x == CHOOSE u \in s : TRUE
      y == CHOOSE u \in s : u # x
      far(r) == CHOOSE u \in {r[i] : i \in 1..Len(r)} : Cross(x, y, u) # 0
      cp == Cross(x, y, far(p))
      cq == Cross(x, y, far(q))
  IN (cp > 0) = (cq < 0)

\* the polygons of the sequence Q tile the reference element (side length L)
Tiling(nv, L, Q) ==
  LET n == Len(Q)
      owners(s) == {i \in 1..n : s \in Outline(Q[i])}
  IN /\ \A i \in 1..n : /\ Len(Q[i]) \in {3, 4}
                        /\ \A j \in 1..Len(Q[i]) : InRef(nv, L, Q[i][j])
                        /\ Convex(Q[i])
     /\ SumArea(Q) = L * L * (nv - 2)
     /\ \A i \in 1..n : \A s \in Outline(Q[i]) :
          IF OnBd(nv, L, s) THEN owners(s) = {i}
          ELSE /\ Cardinality(owners(s)) = 2
               /\ \A j \in owners(s) \ {i} : Opposite(Q[i], Q[j], s)
\* interior sides and interior vertices of the tiling
InnerSides(nv, L, Q) == {s \in UNION {Outline(Q[i]) : i \in 1..Len(Q)} : ~ OnBd(nv, L, s)}
Vertices(Q) == {Q[i][j] : <<i, j>> \in {x \in (1..Len(Q)) \X (1..4) : x[2] <= Len(Q[x[1]])}}
InnerPoints(nv, L, Q) == {p \in Vertices(Q) : \A k \in 0..(nv - 1) : ~ OnSide(nv, L, k, p)}

\* what the library lists for a pattern: Q cells, S interior edges, P interior points
Scaled(p, L) == <<(p[1] * L) \div 12, (p[2] * L) \div 12>>
PatternOK(nv, p, a, L, nc, Q, S, P) ==
  LET aa == IF a < 0 THEN 0 ELSE a
  IN /\ L > 0 /\ L % 6 = 0
     /\ nc = <<Len(Q), Len(S), Len(P)>>
     /\ IF p = "nil" THEN Q = <<>> /\ S = <<>> /\ P = <<>>
        ELSE /\ Tiling(nv, L, Q)
             /\ {Outline(Q[i]) : i \in 1..Len(Q)} =
                  {Outline([i \in 1..Len(q) |-> Scaled(q[i], L)]) : q \in Children(nv, p, aa)}
             /\ Len(Q) = Cardinality(Children(nv, p, aa))
             /\ \A i \in 1..Len(S) : Len(S[i]) = 2
             /\ Len(S) = Cardinality(InnerSides(nv, L, Q))
             /\ {{S[i][1], S[i][2]} : i \in 1..Len(S)} = InnerSides(nv, L, Q)
             /\ Len(P) = Cardinality(InnerPoints(nv, L, Q))
             /\ {P[i][1] : i \in 1..Len(P)} = InnerPoints(nv, L, Q)
             /\ \A k \in 0..(nv - 1) :
                  {q \in Vertices(Q) : OnSide(nv, L, k, q)} =
                    {Scaled(Corner(nv, k), L), Scaled(Corner(nv, k + 1), L)}
                     \cup (IF k \in SplitSides(nv, p, aa) THEN {Scaled(Mid(nv, k), L)} ELSE {})
SegPatternOK(p, L, nc, Q, P) ==
  /\ L > 0 /\ L % 2 = 0
  /\ nc = <<Len(Q), Len(P)>>
  /\ Q = (CASE p = "nil" -> <<>> [] p = "copy" -> <<<<<<0>>, <<L>>>>>>
            [] p = "split" -> <<<<<<0>>, <<L \div 2>>>>, <<<<L \div 2>>, <<L>>>>>>)
  /\ P = (IF p = "split" THEN <<<<<<L \div 2>>>>>> ELSE <<>>)
PointPatternOK(p, nc, Q) == nc = <<Len(Q)>> /\ Q = (IF p = "nil" THEN <<>> ELSE <<<< <<>> >>>>)

(* ---- the table itself is checked by TLC (RefPat_MC) ----------------------- *)
AnySeq(S) == LET f == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j] IN f
TableOK(nv, p, a) ==
  LET Q == AnySeq(Children(nv, p, a))
  IN /\ Tiling(nv, 12, Q)
     /\ \A k \in 0..(nv - 1) :
          {q \in Vertices(Q) : OnSide(nv, 12, k, q)} =
             {Corner(nv, k), Corner(nv, k + 1)} \cup (IF k \in SplitSides(nv, p, a) THEN {Mid(nv, k)} ELSE {})
===============================================================================
