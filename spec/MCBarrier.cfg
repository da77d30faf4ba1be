SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Rounds = 3
  ReadFirst = TRUE
  ResetFirst = TRUE
INVARIANT Together
PROPERTY AllPass
