SPECIFICATION Spec
CONSTANTS
  MaxSend = 2
  MaxT = 9
  LeadT = 2
  LeadR = 3
INVARIANTS NeverLate AtItsTime NotLost Once Live
CHECK_DEADLOCK FALSE
