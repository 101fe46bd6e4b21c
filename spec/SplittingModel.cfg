SPECIFICATION Spec
CONSTANT Steps = 12
INVARIANTS FinalTime Together Symmetric Length
PROPERTY Ends
CHECK_DEADLOCK FALSE
