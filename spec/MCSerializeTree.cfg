SPECIFICATION Spec
CONSTANTS
  N = 4
  Tracked = FALSE
  Expose = TRUE
  ReportFirst = TRUE
  UnpackOpt = TRUE
INVARIANTS Faithful Goes
CHECK_DEADLOCK FALSE
