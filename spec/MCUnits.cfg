SPECIFICATION Spec
CONSTANTS
  W = 10
  WD = 1
  FW = 1
  N = 45
INVARIANTS AddExact MulExact CmpExact Assoc Nearest Steps OneAnswer Sig
CHECK_DEADLOCK FALSE
