SPECIFICATION Spec
CONSTANTS Depth = 7
Adv = {1, 5}
Emit = FALSE
INVARIANT ElapsedIsRunningTime
PROPERTY StoppedStays
CHECK_DEADLOCK FALSE
