CONSTANTS NX = 2
 NY = 2
 MaxEdges = 4
 Rounds = 2
 Faults = FALSE
 Check = TRUE
SPECIFICATION GSpec
INVARIANTS Inv EmitB
CHECK_DEADLOCK FALSE
