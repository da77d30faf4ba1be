SPECIFICATION Spec
CONSTANTS
 N = 5
 Rs = {1, 2, 3}
 Ts = {1, 2}
 Kinds = {"linear", "roundrobin", "simple"}
 BothEnds = TRUE
 Remainder = TRUE
INVARIANTS Right Grouped
CHECK_DEADLOCK FALSE
