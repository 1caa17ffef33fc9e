SPECIFICATION Spec
INVARIANTS Recodings Products
CONSTANTS
  n = 61
  Bits = 6
  WA = 3
  WG = 4
  WC = 3
  WB = 2
  Nums = 23
  Bases = {1, 2, 30, 60}
CHECK_DEADLOCK FALSE
