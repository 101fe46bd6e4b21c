CONSTANTS NX = 1
 NY = 1
 MaxEdges = 1
 Rounds = 1
 Faults = FALSE
 Check = TRUE
SPECIFICATION GSpec
INVARIANTS Inv
VIEW View
CHECK_DEADLOCK FALSE
