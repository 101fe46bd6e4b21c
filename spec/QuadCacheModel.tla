---------------------------- MODULE QuadCacheModel ----------------------------
(* The cache implemented by one growing array of slots per element: requests     *)
(* create missing slots and fill one. Slots keep their identity. Refines          *)
(* QuadCache; behaviours are replayed in the real code.                          *)
EXTENDS QuadCache, Json
CONSTANTS Refs, MaxDeg, MaxOps, Gen
VARIABLES slots,   \* element -> sequence of [id, full]
          nid, C, hist
vars == <<slots, nid, C, hist>>
Init == slots = [r \in Refs |-> <<>>] /\ nid = 0 /\ C = EmptyCache /\ hist = <<>>
Rule(r, d) == <<r, d>>
Last(r, d) == slots[r][d + 1]
Get(r, d) ==
  LET grown == IF Len(slots[r]) < d + 1
               THEN slots[r] \o [i \in 1..(d + 1 - Len(slots[r])) |-> [id |-> nid + i - 1, full |-> FALSE]]
               ELSE slots[r]
      e == [ref |-> r, d |-> d, ret |-> r, deg |-> d, cont |-> Rule(r, d), fresh |-> Rule(r, d),
            obj |-> grown[d + 1].id,
            held |-> C.cont \o IF grown[d + 1].full THEN <<>> ELSE <<Rule(r, d)>>]
  IN /\ slots' = [slots EXCEPT ![r] = [grown EXCEPT ![d + 1].full = TRUE]]
     /\ nid' = nid + (Len(grown) - Len(slots[r]))
     /\ Assert(GetOK(C, e), <<"not a behaviour of QuadCache", e>>)
     /\ C' = After(C, e)
     /\ hist' = Append(hist, <<r, d>>)
Next == Len(hist) < MaxOps /\ \E r \in Refs, d \in 0..MaxDeg : Get(r, d)
Spec == Init /\ [][Next]_vars
\* distinct keys have distinct objects and every object is the slot of its key
Inv == /\ \A k1, k2 \in DOMAIN C.obj : k1 # k2 => C.obj[k1] # C.obj[k2]
       /\ \A k \in DOMAIN C.obj : slots[k[1]][k[2] + 1] = [id |-> C.obj[k], full |-> TRUE]
View == <<slots, C.obj, Len(hist)>>
EmitB == (Gen /\ Len(hist) = MaxOps) => PrintT("BEH" \o ToJson(hist))
===============================================================================
