----------------------------- MODULE MCTraceLow -----------------------------
EXTENDS TraceLow, Secp256k1
=============================================================================
