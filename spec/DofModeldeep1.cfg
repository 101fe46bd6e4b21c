CONSTANTS MaxCnt = 3
 Kind = 1
SPECIFICATION Spec
INVARIANTS Contract
CHECK_DEADLOCK FALSE
