SPECIFICATION Spec
CONSTANTS
 NMod = 3
 Events = {1, 2}
 Lat = 1
 MaxT = 2
 StopAtCancel = TRUE
 PlanSet <- Plans
INVARIANTS Follows Complete Alone InOrder
CHECK_DEADLOCK FALSE
