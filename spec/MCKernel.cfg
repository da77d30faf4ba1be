SPECIFICATION Spec
CONSTANTS
  Model = "links"
  MaxSend = 3
  MaxT = 6
  MaxOps = 1
  MaxCalls = 1
INVARIANTS ExactlyOnce NoneLate PortOrder TickTimes NoTickLost Ended EndTime
PROPERTY Monotone
CHECK_DEADLOCK FALSE
