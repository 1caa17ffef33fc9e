SPECIFICATION Spec
INVARIANTS Verifies Recovers
CONSTANTS
  L <- One1
  P <- P43
  N <- N43
  B <- B43
  GX <- GX43
  GY <- GY43
  Guard = "right"
CHECK_DEADLOCK FALSE
