CONSTANTS MaxCnt = 2
 Kind = 1
SPECIFICATION Spec
INVARIANTS Contract
CHECK_DEADLOCK FALSE
