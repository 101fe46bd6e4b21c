SPECIFICATION Spec
CONSTANT Base <- Base2
CONSTANT MaxSteps = 1
CONSTANT FullMarks = 1
INVARIANT Conforming Covers Nondegenerate ValidRefEdges MarkedSplit Minimal Untouched
VIEW View
CHECK_DEADLOCK FALSE
