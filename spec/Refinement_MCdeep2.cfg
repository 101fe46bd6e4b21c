SPECIFICATION Spec
CONSTANT Base <- Base2
CONSTANT MaxSteps = 2
CONSTANT FullMarks = 0
INVARIANT Conforming Covers Nondegenerate ValidRefEdges MarkedSplit Minimal Untouched
VIEW View
CHECK_DEADLOCK FALSE
