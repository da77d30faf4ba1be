CONSTANTS
 End = 4
 MaxAdds = 3
 Limits = {0, 1, 2}
 Periods = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Covers Periodic ByCount
CHECK_DEADLOCK FALSE
