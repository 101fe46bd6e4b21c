---------------------------- MODULE TripletMatrix -----------------------------
(* A matrix assembled from contributions. A number is a pair <<re, im>> of      *)
(* integers. A matrix is a record [r, c, d] with d[i+1][j+1] a number.           *)
EXTENDS Integers, Sequences, FiniteSets

Zero == <<0, 0>>
One == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>

Max2(a, b) == IF a < b THEN b ELSE a
NewM(r, c) == [r |-> r, c |-> c, d |-> [i \in 1..r |-> [j \in 1..c |-> Zero]]]
At(M, i, j) == IF i < M.r /\ j < M.c THEN M.d[i + 1][j + 1] ELSE Zero
Grow(M, r, c) ==
  IF r <= M.r /\ c <= M.c THEN M
  ELSE LET R == Max2(r, M.r)
           C == Max2(c, M.c)
       IN [r |-> R, c |-> C, d |-> [i \in 1..R |-> [j \in 1..C |-> At(M, i - 1, j - 1)]]]
Add(M, i, j, v) ==
  LET G == Grow(M, i + 1, j + 1)
  IN [G EXCEPT !.d[i + 1][j + 1] = CAdd(@, v)]
Clear(M) == NewM(M.r, M.c)
\* positions selected by a predicate become zero
Sel(p, r, c, i, j) ==
  CASE p = "row" -> i = r [] p = "col" -> j = c [] p = "or" -> i = r \/ j = c
    [] p = "and" -> i = r /\ j = c [] p = "lt" -> i < j [] p = "all" -> TRUE [] OTHER -> FALSE
ClearIf(M, p, r, c) ==
  [M EXCEPT !.d = [i \in 1..M.r |-> [j \in 1..M.c |-> IF Sel(p, r, c, i - 1, j - 1) THEN Zero ELSE M.d[i][j]]]]

RECURSIVE RowSum(_, _, _)
RowSum(row, x, j) == IF j = 0 THEN Zero ELSE CAdd(RowSum(row, x, j - 1), CMul(row[j], x[j]))
\* alpha * M * x, a sequence of M.r numbers
MulV(M, al, x) == [i \in 1..M.r |-> CMul(al, RowSum(M.d[i], x, M.c))]
\* y + alpha * M * x; y may be longer than M has rows
MulAdd(M, al, x, y) ==
  LET p == MulV(M, al, x)
  IN [i \in 1..Len(y) |-> IF i <= M.r THEN CAdd(y[i], p[i]) ELSE y[i]]

(* ---- prescribing components of the solution of M x = b ---------------------- *)
Fixed(fl, i) == fl[i] # 0
\* rows and columns of fixed components decoupled
FixM(M, fl) ==
  [M EXCEPT !.d = [i \in 1..M.r |-> [j \in 1..M.c |->
       IF Fixed(fl, i) \/ Fixed(fl, j) THEN (IF i = j THEN One ELSE Zero) ELSE M.d[i][j]]]]
FixB(M, fl, v, b) ==
  LET x == [i \in 1..Len(b) |-> IF Fixed(fl, i) THEN v[i] ELSE Zero]
      p == MulV(M, One, x)
  IN [i \in 1..Len(b) |-> IF Fixed(fl, i) THEN v[i] ELSE CAdd(b[i], CNeg(p[i]))]
\* only rows of fixed components replaced
AltM(M, fl) ==
  [M EXCEPT !.d = [i \in 1..M.r |-> [j \in 1..M.c |->
       IF Fixed(fl, i) THEN (IF i = j THEN One ELSE Zero) ELSE M.d[i][j]]]]
AltB(M, fl, v, b) == [i \in 1..Len(b) |-> IF Fixed(fl, i) THEN v[i] ELSE b[i]]

\* x solves M x = b
Solves(M, x, b) == MulV(M, One, x) = b
===============================================================================
