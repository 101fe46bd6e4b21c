CONSTANTS MaxCnt = 3
 Kind = 2
SPECIFICATION Spec
INVARIANTS Contract
CHECK_DEADLOCK FALSE
