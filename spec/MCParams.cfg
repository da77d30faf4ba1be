SPECIFICATION Spec
CONSTANTS
  Keys <- MKeys
  Scopes <- MScopes
  Vals = {"x", "y"}
  MaxOps = 5
  OwnWins = TRUE
INVARIANTS LookupExact OwnFirst ScopeExact ScopeComposes
PROPERTIES OthersKeep
CHECK_DEADLOCK FALSE
