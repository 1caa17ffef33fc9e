SPECIFICATION Spec
INVARIANT Holds
CONSTANTS
  SmallM = {7, 13, 31, 43, 61, 67, 101, 127, 149, 199, 211, 229, 241, 251}
  NRand = 400
CHECK_DEADLOCK FALSE
