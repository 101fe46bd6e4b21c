CONSTANTS Refs = {"seg", "tria"}
 MaxDeg = 2
 MaxOps = 5
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
