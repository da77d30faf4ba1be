CONSTANTS SeesConfigured = TRUE AsksParent = TRUE
SPECIFICATION Spec
INVARIANTS OnlyGranted NothingWithheld Refines AsSpecified
PROPERTY ConfiguredOnce
CHECK_DEADLOCK FALSE
