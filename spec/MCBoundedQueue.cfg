SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Cap = 1
  MaxPut = 3
  Doubled = TRUE
INVARIANTS NoLoss Once Real Bound AllHeld
CHECK_DEADLOCK FALSE
