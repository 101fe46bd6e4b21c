--------------------------- MODULE RefinementModel ----------------------------
(* Adaptive refinement as a state machine. The state is the finest mesh as a   *)
(* set of cells [v |-> vertex coordinates, re |-> refinement edge]; a step     *)
(* marks edges and refines. The successor is built with the operators of       *)
(* Refinement which also judge the implementation; the invariants say what the *)
(* construction is for: conformity, nestedness, minimality.                    *)
EXTENDS Refinement, SequencesExt, Randomization, Json
CONSTANTS Base, MaxSteps, FullMarks
VARIABLES cells, last, hist

Sid(c, i) == {c.v[i], c.v[(i % Len(c.v)) + 1]}
SidesOf(c) == {Sid(c, i) : i \in 1..Len(c.v)}
EdgesOf(C) == UNION {SidesOf(c) : c \in C}
MidOf(e) == LET p == CHOOSE x \in e : TRUE q == CHOOSE x \in e : x # p IN <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>

\* the mesh as the library would present it
Level(C) ==
  LET cs == SetToSeq(C)
      ps == SetToSeq(UNION {SetOf(c.v) : c \in C})
      es == SetToSeq(EdgesOf(C))
      pno == [p \in SetOf(ps) |-> CHOOSE i \in 1..Len(ps) : ps[i] = p]
      eno == [e \in SetOf(es) |-> CHOOSE i \in 1..Len(es) : es[i] = e]
      fst(e) == CHOOSE x \in e : \A y \in e : pno[x] <= pno[y]
      snd(e) == CHOOSE x \in e : x # fst(e)
      mids(c) == [i \in 1..Len(c.v) |-> MidOf(Sid(c, i))]
  IN [m |-> [pts |-> ps,
             edges |-> [i \in 1..Len(es) |-> <<pno[fst(es[i])] - 1, pno[snd(es[i])] - 1>>],
             cells |-> [i \in 1..Len(cs) |-> [v |-> [k \in 1..Len(cs[i].v) |-> pno[cs[i].v[k]] - 1],
                                              e |-> [k \in 1..Len(cs[i].v) |-> eno[Sid(cs[i], k)] - 1],
                                              o |-> [k \in 1..Len(cs[i].v) |-> IF fst(Sid(cs[i], k)) = cs[i].v[k] THEN 1 ELSE -1]]]],
      eg |-> [i \in 1..Len(es) |-> <<fst(es[i]), snd(es[i]), MidOf(es[i])>>],
      cg |-> [i \in 1..Len(cs) |-> cs[i].v \o mids(cs[i])],
      re |-> [i \in 1..Len(cs) |-> cs[i].re],
      es |-> es]

D2(e) == LET p == CHOOSE x \in e : TRUE q == CHOOSE x \in e : x # p
         IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Longest(v) == IF Len(v) = 4 THEN -1
              ELSE CHOOSE j \in 0..2 : \A k \in 0..2 : D2(Sid([v |-> v], j + 1)) >= D2(Sid([v |-> v], k + 1))
Refine(C, kind, M) ==  \* M: set of edges (pairs of points)
  LET lv == Level(C)
      S == SplitEdges(lv, kind, {i - 1 : i \in {x \in 1..Len(lv.es) : lv.es[x] \in M}})
      kids(c) == LET pa == PatternFor(lv, kind, c, S)
                     s == CellShape(lv, 1, c)
                     img(q) == [k \in 1..Len(q) |-> MapZ(s, q[k][1], q[k][2])]
                     par(q) == \* side parallel to the refinement edge
                       LET d0 == <<Corner(3, lv.re[c] + 1)[1] - Corner(3, lv.re[c])[1], Corner(3, lv.re[c] + 1)[2] - Corner(3, lv.re[c])[2]>>
                       IN (CHOOSE i \in 1..3 : (q[(i % 3) + 1][1] - q[i][1]) * d0[2] = (q[(i % 3) + 1][2] - q[i][2]) * d0[1]) - 1
                 IN {[v |-> img(q), re |-> IF s.nv = 3 /\ pa[1] \in {"copy", "regular"} THEN par(q) ELSE Longest(img(q))]
                       : q \in Children(s.nv, pa[1], pa[2])}
  IN [cells |-> UNION {kids(c) : c \in 1..Len(lv.m.cells)}, split |-> {lv.es[i] : i \in S}]

BaseCells == {[v |-> Base[i], re |-> Longest(Base[i])] : i \in 1..Len(Base)}
AsPts(C) == SetToSeq(UNION {SetOf(c.v) : c \in C})
BaseEvent ==
  LET ps == SetToSeq(UNION {SetOf(Base[i]) : i \in 1..Len(Base)})
  IN [a |-> "base", pts |-> ps,
      cells |-> [i \in 1..Len(Base) |-> [k \in 1..Len(Base[i]) |-> (CHOOSE n \in 1..Len(ps) : ps[n] = Base[i][k]) - 1]]]
Init == /\ cells = BaseCells
        /\ last = [before |-> {}, marked |-> {}, split |-> {}, kind |-> ""]
        /\ hist = <<BaseEvent>>
Do(kind, M) ==
  LET r == Refine(cells, kind, M)
  IN /\ cells' = r.cells
     /\ last' = [before |-> cells, marked |-> M, split |-> r.split, kind |-> kind]
     /\ hist' = Append(hist, IF kind = "marked" THEN [a |-> "mark", at |-> SetToSeq({MidOf(e) : e \in M})] ELSE [a |-> "ref", k |-> kind])
AllMarks == IF Len(hist) <= FullMarks THEN SUBSET EdgesOf(cells) ELSE {{e} : e \in EdgesOf(cells)}
Next == /\ Len(hist) <= MaxSteps
        /\ \/ \E M \in AllMarks : Do("marked", M)
           \/ Do("regular", {})
SomeMarks == RandomSetOfSubsets(4, (Cardinality(EdgesOf(cells)) + 3) \div 4, EdgesOf(cells)) \cup {{RandomElement(EdgesOf(cells))}}
NextSim == /\ Len(hist) <= MaxSteps
           /\ \/ \E M \in SomeMarks : Do("marked", M)
              \/ Do("regular", {})
Spec == Init /\ [][Next]_<<cells, last, hist>>
SpecSim == Init /\ [][NextSim]_<<cells, last, hist>>
View == <<cells, last, Len(hist)>>

(* ---- invariants -------------------------------------------------------------- *)
Cr(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
Ar(c) == Area2(c.v)
RECURSIVE SumAr(_)
SumAr(C) == IF C = {} THEN 0 ELSE LET c == CHOOSE x \in C : TRUE IN Ar(c) + SumAr(C \ {c})
Between(e, p) == LET a == CHOOSE x \in e : TRUE b == CHOOSE x \in e : x # a
                 IN p \notin e /\ Cr(a, b, p) = 0
                    /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0 /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0
Conforming ==
  /\ \A e \in EdgesOf(cells) : Cardinality({c \in cells : e \in SidesOf(c)}) <= 2
  /\ \A e \in EdgesOf(cells) : \A c \in cells : \A k \in 1..Len(c.v) : ~ Between(e, c.v[k])
Covers == SumAr(cells) = SumAr(BaseCells)
Nondegenerate == \A c \in cells : Convex(c.v)
ValidRefEdges == \A c \in cells : c.re \in (IF Len(c.v) = 3 THEN 0..2 ELSE {-1})
MarkedSplit == last.kind = "marked" =>
  /\ last.marked \subseteq last.split
  /\ \A e \in last.split : MidOf(e) \in UNION {SetOf(c.v) : c \in cells}
  /\ \A e \in EdgesOf(last.before) \ last.split : e \in EdgesOf(cells)
RefEdge(c) == Sid(c, c.re + 1)
ClosedSet(C, S) == \A c \in C : (Len(c.v) = 3 /\ SidesOf(c) \cap S # {}) => RefEdge(c) \in S
Minimal == (last.kind = "marked" /\ Cardinality(last.split \ last.marked) <= 8) =>
  /\ ClosedSet(last.before, last.split)
  /\ \A T \in SUBSET (last.split \ last.marked) : ClosedSet(last.before, T \cup last.marked) => T = last.split \ last.marked
Untouched == last.kind = "marked" =>
  \A c \in last.before : SidesOf(c) \cap last.split = {} => \E d \in cells : SidesOf(d) = SidesOf(c) /\ (Len(c.v) = 3 => RefEdge(d) = RefEdge(c))
Show == (Len(hist) > MaxSteps) => PrintT("BEH" \o ToJson(hist))

Base0 == << <<<<0,0>>, <<192,0>>, <<0,192>>>>, <<<<192,0>>, <<192,192>>, <<0,192>>>> >>
Base1 == << <<<<0,0>>, <<192,0>>, <<192,192>>, <<0,192>>>>, <<<<192,0>>, <<384,64>>, <<192,192>>>> >>
Base2 == << <<<<0,0>>, <<192,0>>, <<256,192>>, <<0,192>>>>, <<<<192,0>>, <<384,0>>, <<384,192>>, <<256,192>>>>,
            <<<<0,192>>, <<256,192>>, <<128,320>>>>, <<<<256,192>>, <<384,192>>, <<128,320>>>> >>
===============================================================================
