SPECIFICATION Spec
CONSTANT Base <- Base1
CONSTANT MaxSteps = 2
CONSTANT FullMarks = 1
INVARIANT Conforming Covers Nondegenerate ValidRefEdges MarkedSplit Minimal Untouched
VIEW View
CHECK_DEADLOCK FALSE
