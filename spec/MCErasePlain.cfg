SPECIFICATION Spec
INVARIANT Erased
CONSTANTS
  Words = {1, 2, 3, 4}
  Values = {0, 1, 2}
  Wiped = 0
  Cleared = {1, 2, 3, 4}
  Volatile = {1, 2, 3}
CHECK_DEADLOCK FALSE
