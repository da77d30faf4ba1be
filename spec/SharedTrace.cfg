SPECIFICATION RSpec
CONSTANT Overwrite = TRUE
CHECK_DEADLOCK FALSE
