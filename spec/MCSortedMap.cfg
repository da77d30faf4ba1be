SPECIFICATION Spec
CONSTANTS
  K = {1, 2, 3, 4, 5}
  V = {1, 2}
INVARIANTS InOrder Implements SearchExact
CHECK_DEADLOCK FALSE
