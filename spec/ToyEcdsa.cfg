SPECIFICATION Spec
INVARIANTS SignsWell SignsDet Complete Agree Twins Strict
CONSTANTS
  L <- One1
  P <- P19
  N <- N19
  B <- B19
  GX <- GX19
  GY <- GY19
CHECK_DEADLOCK FALSE
