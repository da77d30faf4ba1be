SPECIFICATION Spec
CONSTANTS
  Model = "clk"
  MaxSend = 1
  MaxT = 7
  MaxOps = 1
  MaxCalls = 3
INVARIANTS ExactlyOnce NoneLate PortOrder TickTimes NoTickLost Ended EndTime
PROPERTY Monotone
CHECK_DEADLOCK FALSE
