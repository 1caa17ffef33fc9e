SPECIFICATION Spec
INVARIANTS Holds
CONSTANTS
  L <- One1
  P <- P43
  N <- N43
  B <- B43
  GX <- GX43
  GY <- GY43
  Wide = {0, 1, 2, 3, 127, 128, 129, 255}
  More = 4
CHECK_DEADLOCK FALSE
