SPECIFICATION Spec
INVARIANTS Silent Right

CONSTANTS
  N = 23
  D = 3
  W = 3
  Choose = "branch"
  Skip = FALSE
  Finish = "branch"
  GivenAway = {"high"}
CHECK_DEADLOCK FALSE
