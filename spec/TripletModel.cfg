CONSTANTS Dim = 2
 MaxOps = 4
 Vals <- SmallVals
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Refines FixingOK
VIEW View
CHECK_DEADLOCK FALSE
