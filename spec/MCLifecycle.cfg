SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2, 3}
 MaxPhase = 1
 Barriers = {1, 2, 3, 4}
INVARIANTS Lockstep Received Ends
