SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  PerArena = 2
  MaxArenas = 3
INVARIANTS Partition Count
CHECK_DEADLOCK FALSE
