CONSTANTS Part = "writer"
 MaxOrder = 10
 MaxOps = 16
SPECIFICATION Spec
INVARIANTS NamesUnique SizesOK EmitB
CHECK_DEADLOCK FALSE
