CONSTANTS MaxLen = 4
SPECIFICATION Spec
INVARIANTS Names EmitB
CHECK_DEADLOCK FALSE
