SPECIFICATION SpecSim
CONSTANT Base <- Base2
CONSTANT MaxSteps = 3
CONSTANT FullMarks = 0
INVARIANT Show
CHECK_DEADLOCK FALSE
