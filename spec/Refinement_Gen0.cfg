SPECIFICATION SpecSim
CONSTANT Base <- Base0
CONSTANT MaxSteps = 3
CONSTANT FullMarks = 0
INVARIANT Show
CHECK_DEADLOCK FALSE
