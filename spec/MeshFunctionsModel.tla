-------------------------- MODULE MeshFunctionsModel ---------------------------
(* Expressions as programs of a stack machine over small values: every program   *)
(* that can be run keeps well-formed values, and the laws users rely on when they *)
(* rewrite expressions hold for all values on the stack.                          *)
EXTENDS MeshFunctions, TLC
CONSTANTS MaxStack, MaxOps
VARIABLES st, n
vars == <<st, n>>
C == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -1>>}
Leaves == {[k |-> "s", r |-> 1, c |-> 1, x |-> <<z>>] : z \in C}
     \cup {[k |-> k, r |-> 1, c |-> 2, x |-> <<z, y>>] : z \in C, y \in C, k \in {"m", "a"}}
     \cup {[k |-> "m", r |-> 2, c |-> 2, x |-> <<z, <<1, 0>>, <<-1, 0>>, y>>] : z \in C, y \in C}
     \cup {[k |-> "u", r |-> 1, c |-> 2, x |-> <<<<a, 0>>, <<b, 0>>>>] : a \in {-1, 2}, b \in {0, 1}}
Init == st = <<>> /\ n = 0
Top(i) == st[Len(st) - i]
Pop(i) == SubSeq(st, 1, Len(st) - i)
CanMul(u, v) == IF u.k = "u" \/ v.k = "u" THEN u.k = v.k
                ELSE u.k = "s" \/ v.k = "s" \/ (u.k = v.k /\ IF u.k = "m" THEN u.c = v.r ELSE SameShape(u, v))
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ Len(st) < MaxStack /\ \E v \in Leaves : st' = Append(st, v)
           \/ Len(st) >= 1 /\ \E w \in {Neg(Top(0))} \cup (IF Top(0).k = "u" THEN {} ELSE {Conj(Top(0)), Tr(Top(0)), Sq(Top(0))}) : st' = Append(Pop(1), w)
           \/ Len(st) >= 2 /\ SameShape(Top(1), Top(0)) /\ \E w \in {Add(Top(1), Top(0)), Sub(Top(1), Top(0))} : st' = Append(Pop(2), w)
           \/ Len(st) >= 2 /\ CanMul(Top(1), Top(0)) /\ st' = Append(Pop(2), Mul(Top(1), Top(0)))
Spec == Init /\ [][Next]_vars
WellFormed == \A i \in 1..Len(st) : Len(st[i].x) = st[i].r * st[i].c /\ st[i].k \in {"s", "m", "a", "u"}
Num(u) == u.k # "u"
Laws ==
  /\ \A i \in 1..Len(st) : LET u == st[i] IN
       /\ Neg(Neg(u)) = u /\ Sub(u, u) = Add(u, Neg(u))
       /\ Num(u) => Conj(Conj(u)) = u /\ Tr(Tr(u)) = u /\ Adj(u) = Tr(Conj(u)) /\ Sq(Adj(u)) = Sq(u) /\ Sq(Neg(u)) = Sq(u)
       /\ Num(u) => Sq(u).x[1][2] = 0 /\ Sq(u).x[1][1] >= 0
       /\ u.k = "m" /\ u.c = 1 => Mul(Adj(u), u).x = Sq(u).x
       /\ u.k = "s" => Mul(Conj(u), u) = Sq(u)
  /\ \A i, j \in 1..Len(st) : LET u == st[i] v == st[j] IN
       /\ SameShape(u, v) => Add(u, v) = Add(v, u) /\ Sub(u, v) = Neg(Sub(v, u))
       /\ CanMul(u, v) /\ u.k = "m" /\ v.k = "m" => Adj(Mul(u, v)) = Mul(Adj(v), Adj(u)) /\ Tr(Mul(u, v)) = Mul(Tr(v), Tr(u))
       /\ u.k = "s" => Mul(u, v) = Mul(v, u) \/ v.k = "u"
       /\ \A k \in 1..Len(st) : LET w == st[k] IN
            /\ SameShape(u, v) /\ CanMul(u, w) /\ CanMul(v, w) /\ w.k # "u" => Mul(Add(u, v), w) = Add(Mul(u, w), Mul(v, w))
            /\ CanMul(u, v) /\ CanMul(v, w) /\ CanMul(u, Mul(v, w)) /\ CanMul(Mul(u, v), w) => Mul(u, Mul(v, w)) = Mul(Mul(u, v), w)
===============================================================================
