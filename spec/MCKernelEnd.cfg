SPECIFICATION Spec
CONSTANTS
  Model = "end"
  MaxSend = 2
  MaxT = 6
  MaxOps = 1
  MaxCalls = 3
INVARIANTS ExactlyOnce NoneLate PortOrder TickTimes NoTickLost Ended EndTime
PROPERTY Monotone
CHECK_DEADLOCK FALSE
