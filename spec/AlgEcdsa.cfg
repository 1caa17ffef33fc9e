SPECIFICATION Spec
INVARIANTS Verifies Recovers
CONSTANTS
  L <- One1
  P <- P19
  N <- N19
  B <- B19
  GX <- GX19
  GY <- GY19
  Guard = "right"
CHECK_DEADLOCK FALSE
