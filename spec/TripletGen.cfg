CONSTANTS Dim = 3
 MaxOps = 12
 Vals <- GenVals
 Gen = TRUE
SPECIFICATION Spec
INVARIANTS Refines EmitB
CHECK_DEADLOCK FALSE
