CONSTANTS MaxLen = 6
SPECIFICATION Spec
INVARIANTS Names
CHECK_DEADLOCK FALSE
