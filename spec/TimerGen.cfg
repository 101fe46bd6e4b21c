SPECIFICATION Spec
CONSTANTS Depth = 16
Adv = {1, 2, 5, 8, 13}
Emit = TRUE
INVARIANTS ElapsedIsRunningTime Out
CHECK_DEADLOCK FALSE
