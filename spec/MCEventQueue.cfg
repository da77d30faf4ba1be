SPECIFICATION Spec
CONSTANTS
  T = {0, 1, 2}
  P = {1, 2}
  MaxN = 5
  Locked = TRUE
INVARIANTS SameOrder Held NoOld
CHECK_DEADLOCK FALSE
