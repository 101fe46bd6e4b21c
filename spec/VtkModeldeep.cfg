CONSTANTS Part = "points"
 MaxOrder = 10
 MaxOps = 0
SPECIFICATION Spec
INVARIANTS PointsOK GridsOK
CHECK_DEADLOCK FALSE
