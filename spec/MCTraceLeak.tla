----------------------------- MODULE MCTraceLeak -----------------------------
EXTENDS TraceLeak, Secp256k1
=============================================================================
