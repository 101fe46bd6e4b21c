CONSTANTS MaxComp = 3
 MaxCnt = 1
SPECIFICATION Spec
INVARIANTS Joint
PROPERTIES Stable
CHECK_DEADLOCK FALSE
