SPECIFICATION Spec
INVARIANT Holds
CONSTANTS
  SmallM = {31, 43, 251}
  NRand = 4
CHECK_DEADLOCK FALSE
