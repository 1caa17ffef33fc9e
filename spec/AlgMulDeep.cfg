SPECIFICATION Spec
INVARIANTS Recodings Products
CONSTANTS
  n = 251
  Bits = 8
  WA = 5
  WG = 7
  WC = 5
  WB = 4
  Nums = 77
  Bases = {1, 2, 3, 125, 126, 250}
CHECK_DEADLOCK FALSE
