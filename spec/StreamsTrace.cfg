SPECIFICATION RSpec
CHECK_DEADLOCK FALSE
