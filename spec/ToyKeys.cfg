SPECIFICATION Spec
INVARIANTS Together Commute Secretly Cleared Codecs
CONSTANTS
  L <- One1
  P <- P19
  N <- N19
  B <- B19
  GX <- GX19
  GY <- GY19
  Ks = {0}
  Ps = {0, 1}
CHECK_DEADLOCK FALSE
