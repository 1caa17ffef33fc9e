----------------------------- MODULE Secp256k1 -----------------------------
(* Parameters of secp256k1 (SEC 2), and of small curves of the same shape. *)
EXTENDS Hex
Secp_L == 32
Secp_P == Unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
Secp_N == Unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
Secp_B == Unhex("0000000000000000000000000000000000000000000000000000000000000007")
Secp_GX == Unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
Secp_GY == Unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
=============================================================================
