------------------------------- MODULE QuadCache ------------------------------
(* The cache of quadrature rules: a partial map from (element, degree) to the    *)
(* object handed out, whose content is the rule of that key for ever.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EmptyCache == [obj |-> <<>>, cont |-> <<>>]
\* e = answer to Get(ref, d); C = cache so far
GetOK(C, e) ==
  LET k == <<e.ref, e.d>>
  IN /\ e.ret = e.ref
     /\ e.deg >= e.d
     /\ e.cont = e.fresh
     /\ IF k \in DOMAIN C.obj THEN e.obj = C.obj[k]
        ELSE \A k2 \in DOMAIN C.obj : C.obj[k2] # e.obj
     \* all rules handed out before are unchanged
     /\ Len(e.held) = (IF k \in DOMAIN C.obj THEN 0 ELSE 1) + Len(C.cont)
     /\ \A i \in 1..Len(C.cont) : e.held[i] = C.cont[i]
After(C, e) ==
  LET k == <<e.ref, e.d>>
  IN IF k \in DOMAIN C.obj THEN C
     ELSE [obj |-> (k :> e.obj) @@ C.obj, cont |-> Append(C.cont, e.cont)]
===============================================================================
