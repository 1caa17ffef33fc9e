-------------------------------- MODULE Hex --------------------------------
EXTENDS HexPure
Unhex(s) == PureUnhex(s)     \* replaced by Java, see MCBigNat
ToHex(b) == PureHex(b)       \* replaced by Java
============================================================================
