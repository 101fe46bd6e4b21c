------------------------------ MODULE RefPat_MC -------------------------------
EXTENDS RefPat
VARIABLE s
Init == s \in {x \in {3, 4} \X (Patterns(3) \cup Patterns(4)) \X (0..3) :
                 x[2] \in Patterns(x[1]) \ {"nil"} /\ x[3] < x[1]}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Inv == TableOK(s[1], s[2], s[3])
===============================================================================
