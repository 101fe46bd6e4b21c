CONSTANTS MaxStack = 3 MaxOps = 3
SPECIFICATION Spec
INVARIANTS WellFormed Laws
CHECK_DEADLOCK FALSE
