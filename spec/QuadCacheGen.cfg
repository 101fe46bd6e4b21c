CONSTANTS Refs = {"seg", "tria", "quad"}
 MaxDeg = 12
 MaxOps = 25
 Gen = TRUE
SPECIFICATION Spec
INVARIANTS Inv EmitB
CHECK_DEADLOCK FALSE
