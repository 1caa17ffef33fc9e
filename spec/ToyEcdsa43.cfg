SPECIFICATION Spec
INVARIANTS SignsWell SignsDet Complete Agree Twins Strict
CONSTANTS
  L <- One1
  P <- P43
  N <- N43
  B <- B43
  GX <- GX43
  GY <- GY43
CHECK_DEADLOCK FALSE
