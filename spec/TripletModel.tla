----------------------------- MODULE TripletModel -----------------------------
(* A list of triplets (the representation) refines the accumulated matrix of    *)
(* TripletMatrix.tla under every sequence of operations, and the modified       *)
(* systems of FixM/FixB and AltM/AltB have exactly the intended solutions.       *)
(* Finished behaviours are printed and replayed in the real code.               *)
EXTENDS TripletMatrix, TLC, Json
CONSTANTS Dim,      \* largest index + 1 that operations may use
          MaxOps, Vals, Gen

VARIABLES rows, cols, trip, M, hist
vars == <<rows, cols, trip, M, hist>>
V == {<<v, 0>> : v \in Vals} \cup IF Gen THEN {<<v, 1>> : v \in Vals} ELSE {}
\* in generation mode one choice, otherwise all of them
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
SmallVals == {1, -2}
GenVals == {1, -2, 3}
Log(x) == hist' = Append(hist, x)

RECURSIVE DenseOf(_, _)
DenseOf(t, D) == IF t = <<>> THEN D ELSE
  LET x == Head(t) IN DenseOf(Tail(t), [D EXCEPT ![x[1] + 1][x[2] + 1] = CAdd(@, x[3])])
Dense == DenseOf(trip, [i \in 1..rows |-> [j \in 1..cols |-> Zero]])

Init == /\ rows \in 1..Dim /\ cols \in 1..Dim /\ trip = <<>> /\ M = NewM(rows, cols)
        /\ hist = <<<<"new", rows, cols>>>>
AddOp == \E i, j \in 0..(Dim - 1), v \in Pick(V) :
  /\ rows' = Max2(rows, i + 1) /\ cols' = Max2(cols, j + 1)
  /\ trip' = Append(trip, <<i, j, v>>)
  /\ M' = Add(M, i, j, v)
  /\ Log(<<"add", i, j, v>>)
ZeroOp == trip' = <<>> /\ M' = Clear(M) /\ UNCHANGED <<rows, cols>> /\ Log(<<"zero">>)
ZeroPOp == \E p \in Pick({"row", "col", "or", "and", "lt", "all", "none"}), r, c \in Pick(0..(Dim - 1)) :
  /\ trip' = SelectSeq(trip, LAMBDA t : ~Sel(p, r, c, t[1], t[2]))
  /\ M' = ClearIf(M, p, r, c)
  /\ UNCHANGED <<rows, cols>>
  /\ Log(<<"zerop", p, r, c>>)
\* observations are logged so that the replay performs them at every point
GetOp == Gen /\ hist[Len(hist)][1] # "get" /\ Log(<<"get">>) /\ UNCHANGED <<rows, cols, trip, M>>
MulOp == Gen /\ \E al \in Pick(V) : \E x \in Pick([1..cols -> V]) :
   Log(<<"mul", al, x>>) /\ UNCHANGED <<rows, cols, trip, M>>
FixOp == Gen /\ rows = cols /\ \E k \in {"flag", "alt", "lse"} :
   \E fl \in Pick([1..rows -> {0, 1}]) : \E v, b \in Pick([1..rows -> V]) :
     /\ Log(<<"fix", k, fl, v, b>>)
     /\ trip' = SelectSeq(trip, LAMBDA t : ~(Fixed(fl, t[1] + 1) \/ (k = "flag" /\ Fixed(fl, t[2] + 1))))
                \o LET S == {i \in 1..rows : Fixed(fl, i)}
                       RECURSIVE Un(_)
                       Un(Q) == IF Q = {} THEN <<>> ELSE LET i == CHOOSE z \in Q : TRUE
                                                         IN <<<<i - 1, i - 1, One>>>> \o Un(Q \ {i})
                   IN Un(S)
     /\ M' = IF k = "flag" THEN FixM(M, fl) ELSE AltM(M, fl)
     /\ UNCHANGED <<rows, cols>>
Next == Len(hist) <= MaxOps /\ (AddOp \/ ZeroOp \/ ZeroPOp \/ GetOp \/ MulOp \/ FixOp)
Spec == Init /\ [][Next]_vars

Refines == M.r = rows /\ M.c = cols /\ M.d = Dense
\* the constrained problem: fixed components take their values, the other rows hold
XV == {-1, 0, 1, 2}
Vec(S) == [1..rows -> {<<v, 0>> : v \in S}]
Constrained(fl, v, x, b) ==
  \A i \in 1..rows : IF Fixed(fl, i) THEN x[i] = v[i] ELSE RowSum(M.d[i], x, cols) = b[i]
Symmetric(A) == \A i \in 1..A.r, j \in 1..A.c : A.d[i][j] = A.d[j][i]
FixingOK == (rows = cols /\ Len(hist) = MaxOps) =>
  \A fl \in [1..rows -> {0, 1}] :
    /\ Symmetric(M) => Symmetric(FixM(M, fl))
    /\ \A v \in Vec({-1, 2}), b \in Vec({0, 1}), x \in Vec(XV) :
         /\ Constrained(fl, v, x, b) <=> Solves(FixM(M, fl), x, FixB(M, fl, v, b))
         /\ Constrained(fl, v, x, b) <=> Solves(AltM(M, fl), x, AltB(M, fl, v, b))
View == <<rows, cols, trip, Len(hist)>>
EmitB == (Len(hist) = MaxOps + 1) => PrintT("BEH" \o ToJson(hist))
===============================================================================
