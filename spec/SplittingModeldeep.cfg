SPECIFICATION Spec
CONSTANT Steps = 300
INVARIANTS FinalTime Together Symmetric Length
PROPERTY Ends
CHECK_DEADLOCK FALSE
