SPECIFICATION Spec
CONSTANTS
  L <- Secp_L
  P <- Secp_P
  N <- Secp_N
  B <- Secp_B
  GX <- Secp_GX
  GY <- Secp_GY
  Depth = 40
  Theme = "all"
CHECK_DEADLOCK FALSE
