SPECIFICATION Spec
CONSTANTS
 Overwrite = TRUE
 NR = 2
 Types = {"A", "M", "S"}
 Modes = {"F", "I", "N"}
 Keys_ = {0, 1}
 Vals = {1, 2}
 MaxPhase = 1
 MaxPend = 2
INVARIANTS Agree Kept Caught FullOnce
CHECK_DEADLOCK FALSE
