SPECIFICATION Spec
INVARIANTS Law Magnitudes
CONSTANTS
  p = 7
  B = 3
  Full = FALSE
CHECK_DEADLOCK FALSE
