SPECIFICATION Spec
INVARIANTS Silent Right

CONSTANTS
  N = 23
  D = 3
  W = 3
  Choose = "mask"
  Skip = FALSE
  Finish = "branch"
  GivenAway = {}
CHECK_DEADLOCK FALSE
