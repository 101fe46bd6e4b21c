SPECIFICATION Spec
CONSTANTS Depth = 8
Adv = {1, 5}
Emit = FALSE
INVARIANT ElapsedIsRunningTime
PROPERTY StoppedStays
CHECK_DEADLOCK FALSE
