CONSTANTS
 N = {0, 1, 2}
 MaxData = 3
 MinV = 3
 NCounts = TRUE
 Aligned = TRUE
 LowInit = TRUE
 SkipNone = TRUE
SPECIFICATION Spec
INVARIANTS AccOk HistOk
CHECK_DEADLOCK FALSE
