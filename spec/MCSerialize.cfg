SPECIFICATION Spec
CONSTANTS
  N = 4
  Tracked = TRUE
  Expose = TRUE
  ReportFirst = TRUE
  UnpackOpt = TRUE
INVARIANTS Faithful Goes
CHECK_DEADLOCK FALSE
