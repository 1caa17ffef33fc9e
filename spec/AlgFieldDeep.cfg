SPECIFICATION Spec
INVARIANT Holds
CONSTANTS
  W = 5
  T = 4
  C0 = 3
  C1 = 1
  MaxM = 3
CHECK_DEADLOCK FALSE
