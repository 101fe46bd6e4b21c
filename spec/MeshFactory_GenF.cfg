CONSTANTS NX = 2
 NY = 1
 MaxEdges = 4
 Rounds = 1
 Faults = TRUE
 Check = TRUE
SPECIFICATION GSpec
INVARIANTS Inv EmitB
CHECK_DEADLOCK FALSE
