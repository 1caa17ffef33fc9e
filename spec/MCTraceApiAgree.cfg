SPECIFICATION Spec
INVARIANT Conforms
CONSTANTS
  L <- Secp_L
  P <- Secp_P
  N <- Secp_N
  B <- Secp_B
  GX <- Secp_GX
  GY <- Secp_GY
  Mode = "agree"
CHECK_DEADLOCK FALSE
