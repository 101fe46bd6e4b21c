CONSTANTS MaxCnt = 2
 Kind = 2
SPECIFICATION Spec
INVARIANTS Contract
CHECK_DEADLOCK FALSE
