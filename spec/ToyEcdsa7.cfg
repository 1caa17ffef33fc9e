SPECIFICATION Spec
INVARIANTS SignsWell SignsDet Complete Agree Twins Strict
CONSTANTS
  L <- One1
  P <- P7
  N <- N7
  B <- B7
  GX <- GX7
  GY <- GY7
CHECK_DEADLOCK FALSE
