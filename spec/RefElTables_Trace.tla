-------------------------- MODULE RefElTables_Trace ---------------------------
(* reset | ref(...) | try(k,q,a) then val(v) or abort                           *)
EXTENDS RefElTables, TraceBase
VARIABLES l, asked
vars == <<l, asked>>
E == Trace[l]
None == [k |-> -1]
Init == l = 1 /\ asked = None
Step ==
  \/ E.e = "reset" /\ asked' = None
  \/ E.e = "ref" /\ asked = None /\ Holds(AnswersOK(E)) /\ UNCHANGED asked
  \/ E.e = "try" /\ asked = None /\ asked' = [k |-> E.k, q |-> E.q, a |-> E.a]
  \/ /\ E.e = "val" /\ asked # None /\ asked' = None
     /\ Holds(Legal(asked.k, asked.q, asked.a) /\ E.v = Value(asked.k, asked.q, asked.a))
  \/ E.e = "abort" /\ asked # None /\ Holds(~Legal(asked.k, asked.q, asked.a)) /\ asked' = None
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
