SPECIFICATION Spec
CONSTANT Base <- Base0
CONSTANT MaxSteps = 3
CONSTANT FullMarks = 1
INVARIANT Conforming Covers Nondegenerate ValidRefEdges MarkedSplit Minimal Untouched
VIEW View
CHECK_DEADLOCK FALSE
