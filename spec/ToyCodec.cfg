SPECIFICATION Spec
INVARIANTS Holds
CONSTANTS
  L <- One1
  P <- P19
  N <- N19
  B <- B19
  GX <- GX19
  GY <- GY19
  Wide = {0, 1, 2, 128, 129}
  More = 3
CHECK_DEADLOCK FALSE
