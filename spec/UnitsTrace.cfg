SPECIFICATION RSpec
CONSTANTS
  W = 10000
  WD = 4
  FW = 6
CHECK_DEADLOCK FALSE
