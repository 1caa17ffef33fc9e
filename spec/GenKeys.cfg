SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  L <- Secp_L
  P <- Secp_P
  N <- Secp_N
  B <- Secp_B
  GX <- Secp_GX
  GY <- Secp_GY
  Family = "six"
CHECK_DEADLOCK FALSE
