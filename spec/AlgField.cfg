SPECIFICATION Spec
INVARIANT Holds
CONSTANTS
  W = 5
  T = 4
  C0 = 3
  C1 = 1
  MaxM = 1
CHECK_DEADLOCK FALSE
