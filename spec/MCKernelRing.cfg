SPECIFICATION Spec
CONSTANTS
  Model = "ring"
  MaxSend = 4
  MaxT = 5
  MaxOps = 1
  MaxCalls = 0
INVARIANTS ExactlyOnce NoneLate PortOrder TickTimes NoTickLost Ended EndTime
PROPERTY Monotone
CHECK_DEADLOCK FALSE
