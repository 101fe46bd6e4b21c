CONSTANTS MaxComp = 2
 MaxCnt = 2
SPECIFICATION Spec
INVARIANTS Joint
PROPERTIES Stable
CHECK_DEADLOCK FALSE
