SPECIFICATION Spec
INVARIANTS Silent Right
PROPERTY Ends
CONSTANTS
  N = 61
  D = 4
  W = 3
  Choose = "mask"
  Skip = FALSE
  Finish = "branch"
  GivenAway = {"high"}
CHECK_DEADLOCK FALSE
