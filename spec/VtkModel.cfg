CONSTANTS Part = "points"
 MaxOrder = 4
 MaxOps = 0
SPECIFICATION Spec
INVARIANTS PointsOK GridsOK
CHECK_DEADLOCK FALSE
