SPECIFICATION Spec
INVARIANTS Law Magnitudes
CONSTANTS
  p = 19
  B = 2
  Full = TRUE
CHECK_DEADLOCK FALSE
