SPECIFICATION Spec
CONSTANTS
  C = {c1, c2}
  U = {1, 2}
  N = 2
INVARIANTS Honest Notices
CHECK_DEADLOCK FALSE
